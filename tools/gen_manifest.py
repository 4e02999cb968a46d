#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))

TECHNIQUE = {
    'C01': 'explicit-state exploration of mutation histories on the real code against a reference model',
    'C02': 'exhaustive enumeration of rejected calls in every reachable small state, snapshot comparison',
    'C03': 'exhaustive enumeration of re-adding calls and short histories against a reference model',
    'C04': 'exhaustive enumeration of digraphs and mutation histories against breadth-first reachability',
    'C05': 'exhaustive enumeration of digraphs and mutation histories against breadth-first distances',
    'C06': 'exhaustive enumeration of digraphs and mutation histories against transitive closure',
    'C07': 'exhaustive enumeration of multigraphs and mutation histories against a reference model',
    'C08': 'exhaustive enumeration of digraphs and mutation histories against condensation sources',
    'C09': 'exhaustive enumeration of multigraphs, trees read back and compared with the unfolding',
    'C10': 'explicit-state exploration of copies and follow-up changes, heap separation checked',
    'C11': 'explicit-state exploration of pickles and follow-up changes, heap separation checked',
    'C12': 'exhaustive enumeration of digraphs, subsets, directions and types against set algebra',
    'C13': 'exhaustive enumeration of pairs of attributed graphs against a reference merge',
    'C14': 'exhaustive enumeration of sources and conversion chains against a reference model',
    'C15': 'exhaustive enumeration of short parallel lists against a reference model',
    'C16': 'exhaustive enumeration of link structures, roots and limits against breadth-first search',
    'C17': 'exhaustive enumeration of link structures, starts and limits against breadth-first search',
    'C18': 'exhaustive enumeration of outlines against a stack model',
    'C19': 'exhaustive enumeration of all outcomes of the random draws (controlled random source)',
    'C20': 'exhaustive enumeration of hostile strings in all positions, DOT parsed back (parser checked against Graphviz)',
    'C21': 'explicit-state exploration of interleaved changes and renderings, every small shape and setting',
    'C22': 'exhaustive enumeration of combinations and sharing of styling sources against a reference model',
    'C23': 'explicit-state exploration of style operation histories against a reference style model',
    'C24': 'fault enumeration at every step of writing with a controlled layout program, all formats and paths',
    'C25': 'exhaustive enumeration of pairs and triples of attributed graphs against model equality',
    'C26': 'explicit-state exploration of histories of data operations against a reference model',
    'C27': 'exhaustive enumeration of settings and hostile strings, header parsed back',
    'C28': 'explicit-state exploration of query sequences, heap fingerprint and snapshot comparison',
    'C29': 'exhaustive enumeration of hash orders and preceding activity over child processes',
    'C30': 'exhaustive enumeration of shapes, schemes, root and child counts; colour arithmetic',
    'C31': 'exhaustive enumeration of multigraphs and explicit-state exploration of histories with kept objects',
    'C32': 'exhaustive enumeration of interruption points and of failing calls of user code, snapshot comparison',
    'C33': 'systematic exploration of thread schedules of the real code under a controlled scheduler, bounded preemptions',
}

def main():
    checks = []
    for pid, technique in TECHNIQUE.items():
        with open(os.path.join(HERE, '..', 'mc', 'checks', pid.lower() + '.py')) as f:
            source = f.read()
        i = source.index('ASSUMPTIONS = ')
        depth, j = 0, source.index('[', i)
        for k in range(j, len(source)):
            depth += {'[': 1, ']': -1}.get(source[k], 0)
            if depth == 0:
                break
        assumptions = eval(source[j:k + 1])
        checks.append({
            'property': pid,
            'quick_cmd': f'python3 mc/run.py {pid} quick',
            'thorough_cmd': f'python3 mc/run.py {pid} thorough',
            'evidence_file': f'evidence/{pid}.json',
            'technique': technique,
            'level': 'fault_enumeration' if pid in ('C24', 'C32') else 'model_checking',
            'level_note': 'Every element of the bounded space named in the evidence is executed on the code in /repo and '
                          'compared with an independent oracle; nothing is sampled. Beyond the bounds the property is not '
                          'decided. Assumes: ' + '; '.join(assumptions) + '.',
        })
    out = {
        'version': 1,
        'setup_cmd': 'true',
        'checks': checks,
        'not_applicable': [],
        'notes': 'The library is sequential pure Python; checks import it from /repo and need no build and no hooks. '
                 'MC_REPO=<dir> points the machinery at a scratch copy during development only.',
    }
    with open(os.path.join(HERE, '..', 'MANIFEST.json'), 'w') as f:
        json.dump(out, f, indent=1)
        f.write('\n')

main()
