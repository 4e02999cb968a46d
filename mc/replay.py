#!/usr/bin/env python3
"""replay.py <replay file>   -  runs one recorded counterexample again, without the explorer"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

if __name__ == '__main__':
    from run import enter, check_repo
    enter()
    check_repo()
    from mc import core
    sys.exit(core.replay(sys.argv[1]))
