"""Canonical serialisation of live objects: equal fingerprints mean isomorphic heaps, hence the same futures.

Everything reachable from the given roots is included, whatever the attribute names are, together with the
mutable state of the package's modules (module variables, class attributes, default arguments, function
attributes, closures, lru caches)."""
import hashlib
import sys
import types

ATOMS = (type(None), bool, int, float, complex, str, bytes, type(Ellipsis), type(NotImplemented))
OPAQUE = (types.ModuleType, types.BuiltinFunctionType, types.CodeType, types.GetSetDescriptorType,
          types.MemberDescriptorType, types.WrapperDescriptorType, types.MethodDescriptorType)


class Canon:
    def __init__(self, package='abstract'):
        self.package = package
        self.ids = {}
        self.keep = []
        self.out = []

    def visit(self, root):
        """iterative preorder walk"""
        stack = [root]
        out, ids = self.out, self.ids
        while stack:
            x = stack.pop()
            if isinstance(x, Raw):
                out.append(x.text)
                continue
            t = type(x)
            if t in ATOMS:
                out.append(f'{t.__name__}:{x!r}')
                continue
            if id(x) in ids:
                out.append(f'#{ids[id(x)]}')
                continue
            ids[id(x)] = len(ids)
            self.keep.append(x)
            if t in (list, tuple):
                out.append(f'{t.__name__}{len(x)}')
                stack.extend(reversed(x))
            elif isinstance(x, dict):
                out.append(f'{t.__name__}{len(x)}')
                items = []
                for k, v in x.items():
                    items += [k, v]
                if t is not dict and hasattr(x, '__dict__'):
                    items.append(vars(x))
                stack.extend(reversed(items))
            elif isinstance(x, (set, frozenset)):
                # order of iteration is part of the state (the hash seed is fixed)
                out.append(f'{t.__name__}{len(x)}')
                stack.extend(reversed(list(x)))
            elif isinstance(x, type):
                out.append(f'class {x.__module__}.{x.__qualname__}')
                if x.__module__.split('.')[0] == self.package:
                    stack.extend(self.class_state(x))
            elif isinstance(x, types.FunctionType):
                out.append(f'function {x.__module__}.{x.__qualname__}')
                stack.extend(self.function_state(x))
            elif isinstance(x, types.MethodType):
                out.append('method')
                stack.extend([x.__self__, x.__func__])
            elif hasattr(x, 'cache_info') and callable(x.cache_info):
                out.append(f'cached {getattr(x, "__qualname__", "")} {x.cache_info()}')
            elif isinstance(x, (staticmethod, classmethod)):
                out.append(t.__name__)
                stack.append(x.__func__)
            elif isinstance(x, property):
                out.append('property')
                stack.extend([x.fset, x.fget])
            elif isinstance(x, types.CellType):
                out.append('cell')
                try:
                    stack.append(x.cell_contents)
                except ValueError:
                    out.append('empty')
            elif isinstance(x, OPAQUE):
                out.append(f'{t.__name__} {getattr(x, "__name__", "")}')
            elif t.__module__ in ('weakref',):
                out.append(t.__name__)
                try:
                    stack.append(list(x.items()) if hasattr(x, 'items') else list(x))
                except TypeError:
                    pass
            else:
                out.append(f'object {t.__module__}.{t.__qualname__}')
                d = getattr(x, '__dict__', None)
                if d is not None:
                    items = []
                    for k in sorted(d, key=str):
                        items += [Raw(str(k)), d[k]]
                    stack.extend(reversed(items))
                for cls in t.__mro__:
                    slots = cls.__dict__.get('__slots__', ())
                    for s in ([slots] if isinstance(slots, str) else slots):
                        if s not in ('__dict__', '__weakref__') and hasattr(x, s):
                            stack.extend([getattr(x, s), Raw('slot ' + s)])
                if d is None and not any('__slots__' in c.__dict__ for c in t.__mro__):
                    out.append(repr(x) if t.__module__ in ('re', 'datetime', 'decimal', 'fractions') else '')

    def class_state(self, cls):
        items = []
        for k in sorted(vars(cls)):
            if k in ('__dict__', '__weakref__', '__doc__', '__module__', '__annotations__', '__qualname__'):
                continue
            items += [vars(cls)[k], Raw('attr ' + k)]
        return items

    def function_state(self, f):
        items = []
        if f.__defaults__:
            items.append(f.__defaults__)
        if f.__kwdefaults__:
            items.append(f.__kwdefaults__)
        if f.__dict__:
            items.append(dict(f.__dict__))
        if f.__closure__:
            items.extend(f.__closure__)
        return items

    def modules(self):
        for name in sorted(sys.modules):
            if name == self.package or name.startswith(self.package + '.'):
                m = sys.modules[name]
                if m is None or '.test' in name:
                    continue
                d = vars(m)
                for k in sorted(d):
                    if k.startswith('__') and k.endswith('__'):
                        continue
                    self.out.append(f'{name}.{k}')
                    self.visit(d[k])

    def digest(self):
        return hashlib.blake2b('\x00'.join(self.out).encode('utf-8', 'surrogatepass'), digest_size=16).digest()


class Raw:
    __slots__ = ('text',)

    def __init__(self, text):
        self.text = text


def fingerprint(*roots, modules=True):
    c = Canon()
    if modules:
        c.modules()
    for r in roots:
        c.out.append('ROOT')
        c.visit(r)
    return c.digest()
