import argparse
import importlib
import json
import os
import sys
import traceback


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--only')
    a = ap.parse_args()
    import build
    import core
    try:
        if a.replay:
            with open(a.replay) as f:
                c = json.load(f)
            ok, text, _ = core.replay(core.Native(), c)
            print(c['what'], '--', text)
            return 1 if ok else 0
        seed = int(os.environ.get('VERIF_SEED', '1'))
        tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
        os.environ['VERIF_DEPTH'] = tier
        mod = importlib.import_module(a.property.lower())
        ck = core.Check(a.property, tier, seed)
        mod.define(ck)
        if a.only:
            ck.jobs = [j for j in ck.jobs if a.only in j.label]
        ck.execute()
        return ck.finish()
    except build.BuildError as e:
        print('BUILD ERROR\n%s' % e, file=sys.stderr)
        return 3
    except Exception:
        traceback.print_exc()
        return 4
    finally:
        build.cleanup()


sys.exit(main())
