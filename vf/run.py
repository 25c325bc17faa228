import importlib, json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
from core import Ctx, Violation, CheckError, VERIF

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    import registry
    mod, fn, level = registry.CHECKS[prop][:3]
    ctx = Ctx(prop, tier, seed)
    viol = None
    try:
        getattr(importlib.import_module(mod), fn)(ctx)
    except Violation as v:
        viol = v
    except CheckError as e:
        print('CHECK ERROR:', e)
        ctx.notes.append('check error: %s' % str(e)[:500])
        import shutil
        shutil.rmtree(ctx.dir, ignore_errors=True)
        return 3
    except Exception:
        traceback.print_exc()
        import shutil
        shutil.rmtree(ctx.dir, ignore_errors=True)
        return 3
    for key, text in ctx.known:
        if key in ctx.known_hit:
            print('KNOWN-FINDING: property=%s key=%s %s' % (prop, key, text))
    if viol:
        d = os.path.join(VERIF, 'replay')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-seed%d-%s.json' % (prop, seed, tier))
        with open(p, 'w') as f:
            json.dump(dict(property=prop, what=viol.what, detail=viol.detail), f, indent=1, default=str)
        ctx.finish(level, viol)
        print('what: ' + viol.what)
        print(json.dumps(viol.detail, default=str)[:3000])
        print('VIOLATION property=%s replay=%s' % (prop, p))
        return 1
    ctx.log('held')
    ctx.finish(level)
    return 0

sys.exit(main())
