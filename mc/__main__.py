import importlib
import json
import os
import sys

from mc import core

sys.path.insert(0, core.REPO)


def load(prop):
    return importlib.import_module('mc.checks.' + prop.lower())


def main(argv):
    if argv and argv[0] == 'replay':
        with open(argv[1]) as f:
            r = json.load(f)
        mod = load(r['property'])
        res = core.explore(mod, r['tier'], only=r['case'],
                           only_task=r['task'], procs=1)
        fails = [x for y in res for x in y[5]]
        for key, msg in fails:
            print('case', key)
            print(msg)
        print('REPRODUCED' if fails else 'NOT REPRODUCED')
        return 1 if fails else 0
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    return core.main(load(prop), tier)


sys.exit(main(sys.argv[1:]))
