import importlib, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import core, extract, mir

def main():
    pid = sys.argv[1]
    t0 = time.time()
    path, secs, how = extract.extract()
    m = mir.Mir(path)
    fns = [f for f in m.fns.values()]
    ctx = core.Ctx(pid, m, {'functions_in_dump': sum(1 for f in fns if f.kind != 'Closure'),
                            'closures_in_dump': sum(1 for f in fns if f.kind == 'Closure'),
                            'mir_dump': how})
    mod = importlib.import_module('props.' + pid.lower())
    try:
        mod.check(ctx)
    except core.Anchor as e:
        ctx.anchor_missing(str(e))
    except Exception as e:      # the engine met code it cannot follow: what was decided before still counts
        traceback.print_exc()
        print('NOT-DECIDED: property=%s the analysis stopped: %s: %s' % (pid, type(e).__name__, e))
        ctx.skip('analysis', 'stopped', '%s: %s' % (type(e).__name__, e))
    return core.finish(ctx, t0)

if __name__ == '__main__':
    sys.exit(main())
