#!/usr/bin/python3 -B
"""run.py ID [tier]            runs the check of property ID (tier: VERIF_TIER or quick)
run.py --replay FILE        runs one saved case against /repo's working tree: exit 1 if it fails
run.py --exec FILE PKG WORK (internal) one case against an already built package"""
import json
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from vf import core  # noqa: E402


def main(argv):
    if argv[0] == '--exec':
        core.set_env()
        rec = json.load(open(argv[1]))
        sys.path.insert(0, core.deps(argv[3]))
        mod = core.load_mod(rec['property'])
        print(json.dumps(core.Runner(mod, argv[2], argv[3]).run(rec['case'])[:2], default=str))
        return 0
    if argv[0] == '--replay':
        core.set_env()
        rec = json.load(open(argv[1]))
        work = core.scratch()
        try:
            sys.path.insert(0, core.deps(work))
            pkg = core.build(work)
            mod = core.load_mod(rec['property'])
            if hasattr(mod, 'prepare'): mod.prepare(work, pkg)
            res = core.run_cases_fresh(rec['property'], [rec['case']], pkg, work)[0]
        finally:
            core.shutil.rmtree(work, ignore_errors=True)
        print('%s: %s' % (res[0], res[1]))
        return 0 if res[0] == 'ok' else 1
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    return core.main_check(argv[0].upper(), tier, seed)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
