#!/usr/bin/env python3
"""check.py Cxx [--replay FILE]: decides one property of properties.jsonl on /repo's working tree.
VERIF_TIER=quick|thorough, VERIF_SEED=<int>."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'harness'))
sys.dont_write_bytecode = True
import engine, suites


def main():
    prop = sys.argv[1]
    if prop == 'setup':
        return 0
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    e = engine.Engine(prop, tier, seed)
    try:
        if len(sys.argv) > 3 and sys.argv[2] == '--replay':
            f = json.load(open(sys.argv[3]))
            st = [dict(name='replay', module=None, proj=f['proj'], projmod=f['projmod'],
                       records=[f['rec']] if f['rec'] is not None else [], accept=f.get('accept'), consts=f.get('consts') or {})]
            e.run(st)
            for x in e.fails:
                print('VIOLATION property=%s replay=%s\n  [%s] %s' % (prop, sys.argv[3], x['key'], x['msg']))
            for x in e.errors:
                print(x, file=sys.stderr)
            return 1 if e.fails else 2 if e.errors else 0
        e.run(suites.stages(prop, tier))
        return e.finish(suites.ASSUME + suites.ASSUME_OF.get(prop, []), suites.NOTE.get(prop, ''))
    finally:
        e.close()


sys.exit(main())
