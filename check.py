#!/opt/veriftools/pyvenv/bin/python
"""check.py <property> [quick|thorough] [-v] : decide one property on the current tree of /repo"""
import os
import sys
sys.path[:0] = ['/verif/engine', '/verif/contracts']
sys.setrecursionlimit(50000)
import runner
import registry


def main():
    a = [x for x in sys.argv[1:] if not x.startswith('-')]
    pid = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    return runner.check(pid, tier, '', registry.JOBS[pid], seed, verbose='-v' in sys.argv)


if __name__ == '__main__':
    sys.stdout.flush()
    r = main()
    sys.stdout.flush()
    os._exit(r)
