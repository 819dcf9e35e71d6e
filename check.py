#!/usr/bin/env python3
"""check.py <property> [quick|thorough] [--seed N] [--budget S] [--limit N] [--workers N] [--nobuild]
   check.py --replay FILE"""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vsim import frame


def main(a):
    if a[:1] == ['--replay']:
        frame.build()
        return frame.replay(a[1])
    pid = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    o = {}
    i = 1
    while i < len(a):
        if a[i] in ('quick', 'thorough'):
            tier = a[i]
        elif a[i] == '--nobuild':
            o['do_build'] = False
        else:
            v = a[i + 1]
            i += 1
            if a[i - 1] == '--seed':
                seed = int(v)
            elif a[i - 1] == '--budget':
                o['budget'] = float(v)
            elif a[i - 1] == '--limit':
                o['limit'] = int(v)
            elif a[i - 1] == '--workers':
                o['nworkers'] = int(v)
            else:
                sys.exit('what is %s' % a[i - 1])
        i += 1
    return frame.run(pid, tier, seed, **o)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
