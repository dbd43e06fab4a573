"""C14 bounded iterations: what limit every numerical search runs under, how many trial steps a line search takes, how deep recursive division goes and on
which ranges it recurs.  Searches are interpreted with the solver framework replaced by terms; loops and recursions are interpreted on adversarial answers
(a cost that never falls, a ray that never hits, a curve that is never flat, an interval that cannot be halved)."""
from solverlab import *
from meshlab import build, knots
import itertools, math

def check(ctx):
    ctx.rule('limit', 'every run of an iterative solver has an explicit maximum: the caller\'s for intersections, a constant for closest points')
    ctx.rule('line search', 'a solver step tries at most as many points as iterations are left, and never raises the number of iterations left')
    ctx.rule('stop', 'a solver stops at the maximum, whatever the cost does')
    ctx.rule('ray', 'the containment search halves at most the maximum number of times')
    ctx.rule('depth', 'cells are divided from depth 0 in steps of one and never at the maximum depth')
    ctx.rule('range', 'recursive division works on strictly smaller parts of its range and stops at a width')
    ctx.rule('tree', 'a bounding tree stops dividing at its width and divides strictly inside its range')
    ctx.rule('bisection', 'the search for a parameter at a length ends although no parameter is left between the bounds')
    ctx.assumptions.append('the solver framework stops at the maximum it is given')
    intersections(ctx); closest(ctx); others(ctx); line(ctx); stops(ctx); ray(ctx); depth(ctx); ranges(ctx); trees(ctx); bisect(ctx)

def run_exact(ctx, f, args, ov, inl=lambda g: None, opq=lambda g: None, t=15, unroll=120, budget=200000):
    I = engine(ctx, inline=inl, opaque=opq)
    I.unroll, I.budget, I.t_end, I.exact, I.cap = unroll, budget, time.time() + t, True, 400
    def over(I, st, name, info, a):
        e = eps_over(info['name'], a)
        if e is not None: return [(st, e)]
        return ov(I, st, info['name'], name, a, [I.value(st, x) for x in a])
    I.override = over
    with deciding(Case()):
        try: return [(s, s.f, I.value(s, r)) for s, r in I.auto(f, args)]
        except Budget: return None

def intersections(ctx):
    m = ctx.m
    if options(m) is None: return ctx.skip('limit', 'options', 'fields changed')
    for ty, doms in (('NurbsCurve', [(2., 6.), (10., 26.)]), ('NurbsSurface', [(2., 6.), (10., 12.), (20., 36.)])):
        fs = impls(ctx, 'find_intersections', ty)
        if len(fs) != 1: ctx.anchor_missing('find_intersections for ' + ty); continue
        f, surf = fs[0], ty == 'NurbsSurface'
        for mx in (0, 1, 37, 1000, None):
            log = probe(ctx, f, doms, NONE if mx is None else some(options(m, max_iters=mx)), surf)
            inst = 'intersections of %s, %s' % (ty, 'default options' if mx is None else 'at most %d' % mx)
            if log is None or not log['exec']: ctx.skip('limit', inst, 'search not recognised'); continue
            for problem, solver, state in log['exec'][:1]:
                x = best_chain(state, 'max_iters')
                if x is None and state.k == 'call': ctx.ob('limit', inst, False, f.span, '%s: the solver runs without a maximum' % inst); continue
                n = None if x is None else numeric(x)
                if n is None: ctx.skip('limit', inst, show(x, 4) if x is not None else 'state'); continue
                ctx.ob('limit', inst, n <= mx if mx is not None else n <= 1e5, f.span, '%s: the solver may run %g iterations' % (inst, n)); ctx.count('solver runs')

def closest(ctx):
    m = ctx.m
    for ty in ('NurbsCurve', 'NurbsSurface'):
        fs = m.method(ty, 'find_closest_parameter')
        if len(fs) != 1: ctx.anchor_missing('%s::find_closest_parameter' % ty); continue
        f = fs[0]
        seen = []
        def ov(I, st, nm, name, a, v):
            if nm == 'new' and 'Executor' in name: return [(st, mk('call', 'exec', (mk('call', 'iterstate', ()),)))]
            if nm in ('param', 'max_iters', 'inv_hessian', 'hessian', 'gradient', 'cost', 'target_cost') and v and find(v[0], lambda x: x.k == 'call' and x.a[0] == 'iterstate'): return [(st, mk('call', nm, (v[0], v[-1])))]
            if nm == 'configure' and v and v[0].k == 'call' and v[0].a[0] == 'exec':
                s2 = I.apply1(st, a[1], [v[0].a[1][0]], ('cfg',))
                return [(st, mk('call', 'exec', (I.value(st, s2),)))]
            if nm == 'run' and v and v[0].k == 'call' and v[0].a[0] == 'exec':
                seen.append(v[0].a[1][0]); return [(st, adt(RES, 'Err', ('0',), (arg('E'),)))]
        I = engine(ctx)
        I.unroll, I.budget, I.t_end, I.cap = 2, 60000, time.time() + 10, 40
        I.override = lambda I, st, name, info, a: ov(I, st, info['name'], name, a, [I.value(st, x) for x in a])
        try: I.auto(f, {})
        except Budget: pass
        inst = 'closest parameter of ' + ty
        if not seen: ctx.skip('limit', inst, 'search not recognised'); continue
        for state in seen[:3]:
            x = best_chain(state, 'max_iters')
            if x is None: ctx.ob('limit', inst, False, f.span, '%s: the solver runs without a maximum' % inst); continue
            n = numeric(x)
            if n is None: ctx.skip('limit', inst, show(x, 4)); continue
            ctx.ob('limit', inst, n <= 1e5, f.span, '%s: the solver may run %g iterations' % (inst, n)); ctx.count('solver runs')

def others(ctx):
    """every other run of the solver framework sets a maximum in the same function"""
    m = ctx.m
    def callees(g):
        for b in g.reachable_blocks():
            t = g.blocks[b]['t']
            if t[0] == 'call' and 'fn' in t[1]: yield t[1]['fn'].get('rpath') or t[1]['fn']['path']
    top = {}
    for g in m.fns.values():
        if g.blocks: top.setdefault(re.sub(r'(::\{closure.*)$', '', g.id), []).append(g)
    for fid, gs in sorted(top.items()):
        cs = [c for g in gs for c in callees(g)]
        runs = [c for c in cs if c.endswith('::run') and 'Executor' in c]
        if not runs or 'tests' in gs[0].span: continue
        ctx.ob('limit', 'solver run in ' + fid[-90:], any(c.split('::')[-1] == 'max_iters' for c in cs), gs[0].span, 'runs a solver and sets no maximum of iterations'); ctx.count('solver call sites')

SOLVERS = ('CurveIntersectionBFGS', 'SurfaceCurveIntersectionBFGS')
def state_adt(**kw): return adt('IterState', 'IterState', tuple(kw), tuple(kw.values()))
def impl1(ctx, nm, ty):
    fs = impls(ctx, nm, ty)
    return fs[0] if len(fs) == 1 else None
def line(ctx):
    m = ctx.m
    for ty in SOLVERS:
        f = impl1(ctx, 'next_iter', ty)
        if f is None: ctx.skip('line search', ty, 'step not found'); continue
        n = 3 if 'Surface' in ty else 2
        an = [f.arg_names.get(i) for i in range(1, f.nargs + 1)]
        sv = build(m, ty, {'step_size_tolerance': cf(0.), 'cost_tolerance': cf(0.)})
        if sv is None: ctx.skip('line search', ty, 'fields changed'); continue
        for left, answer in itertools.product((1, 2, 7, 30), ('worse', 'error', 'better')):
            cost = []
            def ov(I, st, nm, name, a, v):
                if nm in CH and v and (v[0] is STATE or v[0].k == 'call' and v[0].a[0] in CH): return [(st, mk('call', nm, (v[0], v[-1])))]
                if nm in ('get_param', 'take_param', 'get_best_param'): return [(st, some(arg('X0')))]
                if nm in ('get_cost', 'get_best_cost'): return [(st, cf(1.))]
                if nm in ('get_gradient', 'take_gradient'): return [(st, some(arg('G0')))]
                if nm in ('get_hessian', 'get_inv_hessian', 'take_hessian', 'take_inv_hessian'): return [(st, some(arg('H0')))]
                if nm == 'get_max_iters': return [(st, ci(left))]
                if nm == 'get_iter': return [(st, ci(0))]
                if nm in ('norm', 'magnitude'): return [(st, cf(1.))]
                if nm == 'dot': return [(st, cf(-1.))]
                if nm == 'cost' and len(v) == 2 and not find(v[0], lambda x: x.k == 'call' and x.a[0] == 'ITER'):
                    cost.append(1)
                    return [(st, adt(RES, 'Err', ('0',), (arg('E'),)) if answer == 'error' else ok(cf(9. if answer == 'worse' else -9.)))]
                if nm == 'gradient' and len(v) == 2 and v[0] is not STATE and not (v[0].k == 'call' and v[0].a[0] in CH): return [(st, ok(arg('G1')))]
                return None
            CH = ('param', 'cost', 'gradient', 'hessian', 'inv_hessian', 'max_iters', 'jacobian', 'residuals')
            STATE = state_adt(iter=ci(0), max_iters=ci(left), ITER=arg('rest'))
            outs = run_exact(ctx, f, {an[0]: sv, an[2]: STATE}, ov)
            inst = '%s step, %d iterations left, every trial %s' % (ty, left, answer)
            if not outs: ctx.skip('line search', inst, 'not recognised'); continue
            if not cost: ctx.skip('line search', inst, 'no trial seen'); continue
            ctx.ob('line search', inst + ' trials', len(cost) <= left, f.span, '%s: %d trials' % (inst, len(cost)))
            for s, fs_, r in outs:
                if not is_adt(r, RES, 'Ok') or fs_: continue
                st2 = elem(r.a[3][0], ci(0)) if r.a[3][0].k in ('arr', 'tup') else r.a[3][0]
                x = best_chain(st2, 'max_iters')
                if x is None: continue
                k = numeric(x)
                if k is not None: ctx.ob('line search', inst + ' left', k <= left, f.span, '%s: %g iterations left afterwards' % (inst, k))
            ctx.count('solver steps')

def stops(ctx):
    m = ctx.m
    for ty in SOLVERS + ('CurveClosestParameterNewton', 'SurfaceClosestParameterNewton'):
        f = impl1(ctx, 'terminate', ty)
        if f is None: ctx.skip('stop', ty, 'terminate not found'); continue
        an = [f.arg_names.get(i) for i in range(1, f.nargs + 1)]
        for it in (38, 39, 1000):
            def ov(I, st, nm, name, a, v):
                if nm == 'get_iter': return [(st, ci(it))]
                if nm == 'get_max_iters': return [(st, ci(37))]
                if nm.startswith('get_') or nm.startswith('take_'): return [(st, arg(nm))]
                return None
            outs = run_exact(ctx, f, {an[1]: state_adt(iter=ci(it), max_iters=ci(37))}, ov)
            inst = '%s at iteration %d of 37' % (ty, it)
            if not outs: ctx.skip('stop', inst, 'not recognised'); continue
            for s, fs_, r in outs:
                k = r.a[1] if r.k == 'adt' else None
                if k == 'Terminated': ctx.ob('stop', inst, True)
                else: ctx.skip('stop', inst, (show(r, 4) + showf(fs_, 2))[:100])     # the framework stops by itself

def ray(ctx):
    m = ctx.m
    fs = m.free('x_ray_intersection')
    if len(fs) != 1: return ctx.skip('ray', 'x_ray_intersection', 'not found')
    f = fs[0]
    an = [f.arg_names.get(i) for i in range(1, f.nargs + 1)]
    io = [i for i in range(1, f.nargs + 1) if OPTS in f.lty(i).s]
    ip = [i for i in range(1, f.nargs + 1) if 'Point' in f.lty(i).s]
    if len(io) != 1 or len(ip) != 1: return ctx.skip('ray', f.id, 'arguments not recognised')
    for mx in (0, 1, 12, 40):
        evals = []
        def ov(I, st, nm, name, a, v):
            if nm == 'new' and 'BoundingBoxTree' in name and 'Traversal' not in name: return [(st, mk('call', 'tree', (ci(0),)))]
            if nm == 'try_line': return [(st, ok(mk('call', 'line', ())))]
            if nm == 'polyline': return [(st, mk('call', 'line', ()))]
            if nm == 'knots_domain_interval': return [(st, cf(4.))]
            if nm == 'try_traverse': return [(st, ok(mk('call', 'traversal', ())))]
            if nm in ('into_pairs_iter', 'pairs_iter', 'into_pairs', 'pairs'): return [(st, arr([arr([mk('call', 'cell', (ci(0),)), mk('call', 'ray', ())])]))]
            if nm in ('curve', 'curve_owned') and v and v[0].k == 'call' and v[0].a[0] == 'cell': return [(st, mk('call', 'piece', ()))]
            if nm == 'knots_domain': return [(st, arr([cf(2.), cf(6.)]))]
            if nm == 'point_at' and len(v) == 2:
                t = numeric(v[1])
                if t is None: return None
                evals.append(float(t))
                return [(st, arr([cf(9.), cf(-7.) if t < 3.3 else cf(7.)]))]
        outs = run_exact(ctx, f, {an[ip[0] - 1]: arr([cf(0.), cf(0.)]), an[io[0] - 1]: some(options(m, max_iters=mx, minimum_distance=1e-3))}, ov, inl=lambda g: True if g.span.startswith('src/contains') else None)
        inst = 'containment ray, at most %d' % mx
        n = len(evals) - 2
        if n > mx + 60: ctx.ob('ray', inst, False, f.span, '%s: more than %d points are evaluated' % (inst, n)); continue
        if not outs: ctx.skip('ray', inst, 'budget'); continue
        if any(fs_ for s, fs_, r in outs) or n < 0: ctx.skip('ray', inst, 'not recognised'); continue
        ctx.ob('ray', inst, n <= mx, f.span, '%s: %d points are evaluated' % (inst, n)); ctx.count('ray searches')

def depth(ctx):
    m = ctx.m
    fs = m.method('AdaptiveTessellationNode', 'should_divide')
    if len(fs) == 1:
        f = fs[0]
        an = [f.arg_names.get(i) for i in range(1, f.nargs + 1)]
        io = [i for i in range(1, f.nargs + 1) if 'AdaptiveTessellationOptions' in f.lty(i).s]
        idp = [i for i in range(1, f.nargs + 1) if f.lty(i).s == 'usize']
        if len(io) == 1 and len(idp) == 1:
            for mn, mx, d in itertools.product((0, 2, 5), (0, 1, 5, 8), range(0, 12)):
                if mn > mx or d < mx: continue
                op_ = build(m, 'AdaptiveTessellationOptions', {'norm_tolerance': cf(.3), 'min_divs_u': ci(1), 'min_divs_v': ci(1), 'min_depth': ci(mn), 'max_depth': ci(mx)})
                if op_ is None: ctx.skip('depth', 'options', 'fields changed'); break
                nd = build(m, 'AdaptiveTessellationNode', {'id': ci(0), 'children': NONE, 'corners': arr([arg('corner%d' % i) for i in range(4)]), 'neighbors': arg('nb'), 'mid_points': arg('mp'), 'direction': arg('dir'), 'uv_center': arg('uc')})
                if nd is None: ctx.skip('depth', 'cell', 'fields changed'); break
                def ov(I, st, nm, name, a, v):
                    if nm == 'has_bad_normals': return [(st, FALSE)]
                    if nm in ('norm_squared', 'norm', 'magnitude', 'magnitude_squared'): return [(st, cf(100.))]
                    if nm in ('is_u_constrained', 'is_v_constrained'): return [(st, FALSE)]
                outs = run_exact(ctx, f, {an[0]: nd, an[io[0] - 1]: op_, an[idp[0] - 1]: ci(d)}, ov)
                inst = 'cell at depth %d, depths %d to %d' % (d, mn, mx)
                for s, fs_, r in outs or []:
                    if is_adt(r, OPT, 'None'): ctx.ob('depth', inst, True); ctx.count('cells')
                    elif is_adt(r, OPT, 'Some') and not fs_: ctx.ob('depth', inst, False, f.span, '%s is divided' % inst)
                    else: ctx.skip('depth', inst, show(r, 4)[:100])
    it = m.method('AdaptiveTessellationProcessor', 'iterate')
    dv = m.method('AdaptiveTessellationProcessor', 'divide')
    if len(it) != 1: return ctx.skip('depth', 'iterate', 'not found')
    f = it[0]
    an = [f.arg_names.get(i) for i in range(1, f.nargs + 1)]
    us = [i for i in range(1, f.nargs + 1) if f.lty(i).s == 'usize']
    idp = [i for i in us if 'depth' in (an[i - 1] or '')]
    if len(idp) != 1: return ctx.skip('depth', 'iterate', 'depth argument not recognised')
    DD = [a for a in m.adts if a['path'].endswith('DividableDirection')]
    names = [v['n'] for v in DD[0]['v']] if DD else []
    for d, how in itertools.product((0, 1, 7), names):
        rec = []
        def ov(I, st, nm, name, a, v):
            if nm == 'should_divide':
                if len(v) >= 4 and numeric(v[-1]) is not None: rec.append(('asked', int(numeric(v[-1]))))
                return [(st, some(unit_adt(m, 'DividableDirection', how)))]
            if nm == 'iterate':
                k = numeric(v[idp[0] - 1]) if len(v) == f.nargs else None
                rec.append(('child', None if k is None else int(k))); return [(st, UNIT)]
        I = engine(ctx, opaque=lambda g: True if g.name == 'iterate' or g.name.startswith('evaluate') else None)
        I.unroll, I.budget, I.t_end, I.cap = 6, 60000, time.time() + 8, 40
        I.override = lambda I, st, name, info, a: ov(I, st, info['name'], name, a, [I.value(st, x) for x in a])
        try: I.auto(f, {an[idp[0] - 1]: ci(d)})
        except Budget: pass
        inst = 'cell at depth %d divided %s' % (d, how)
        ks = [k for w, k in rec if w == 'child']
        if not ks or None in ks: ctx.skip('depth', inst, 'children not recognised'); continue
        ctx.ob('depth', inst, all(k > d for k in ks), f.span, '%s: its children are at depth %s' % (inst, sorted(set(ks))))
        for w, k in rec:
            if w == 'asked': ctx.ob('depth', inst + ' asked', k == d, f.span, '%s: asked at depth %d' % (inst, k))
        ctx.count('cell divisions')
    if len(dv) == 1:
        g = dv[0]
        rec = []
        def ov2(I, st, name, info, a):
            if info['name'] == 'iterate':
                v = [I.value(st, x) for x in a]
                rec.append(numeric(v[idp[0] - 1])); return [(st, UNIT)]
        I = engine(ctx, opaque=lambda g: True if g.name == 'iterate' else None); I.override = ov2
        I.auto(g, {})
        for k in rec: ctx.ob('depth', 'division starts', k == 0, g.span, 'division starts at depth %s' % k) if k is not None else ctx.skip('depth', 'division starts', 'depth not recognised')

def ranges(ctx):
    """recursions over a parameter range"""
    m = ctx.m
    for f in sorted(m.fns.values(), key=lambda f: f.id):
        if f.kind == 'Closure' or not f.blocks: continue
        def calls_itself(g):
            for b in g.reachable_blocks():
                t = g.blocks[b]['t']
                if t[0] == 'call' and 'fn' in t[1] and (t[1]['fn'].get('rpath') or t[1]['fn']['path']) == f.id: return True
        fam = [f] + m.closures_of(f)
        if not any(calls_itself(g) for g in fam): continue
        an = [f.arg_names.get(i) for i in range(1, f.nargs + 1)]
        if 'start' not in an or 'end' not in an: continue
        si, ei = an.index('start'), an.index('end')
        ti = [i for i in range(f.nargs) if 'tol' in (an[i] or '')]
        for lo, hi in ((0., 1.), (2., 6.), (-3., 5.), (1., 1. + 1e-3), (1., 1. + 3e-9), (5., 5.), (0., 1e-9)):
            rec = []
            def ov(I, st, nm, name, a, v):
                if nm == f.name and len(v) == f.nargs:
                    rec.append((numeric(v[si]), numeric(v[ei]))); return [(st, arr([arg('p0'), arg('p1')]))]
                if nm == 'random' or nm == 'random_range' or nm == 'gen': return [(st, cf(.5))]
                if nm in ('three_points_are_flat',): return [(st, FALSE)]
                if nm in ('norm', 'magnitude', 'norm_squared'): return [(st, cf(100.))]
                if nm == 'dot': return [(st, cf(100.))]
                if nm == 'degree': return [(st, ci(3))]
            args = {'start': cf(lo), 'end': cf(hi)}
            for i in ti: args[an[i]] = cf(1e-3)
            outs = run_exact(ctx, f, args, ov, t=6)
            inst = '%s on %s' % (f.name, '[%.10g, %.10g]' % (lo, hi))
            if outs is None: ctx.skip('range', inst, 'budget'); continue
            if any(x is None or y is None for x, y in rec): ctx.skip('range', inst, 'ranges not recognised'); continue
            rec = [(float(x), float(y)) for x, y in rec]
            if hi - lo > 1e-6:
                if not rec: ctx.skip('range', inst, 'no recursion seen'); continue
                good = all(lo <= x and y <= hi and y - x <= .95 * (hi - lo) for x, y in rec)
                ctx.ob('range', inst, good, f.span, '%s recurs on %s' % (inst, ['[%g, %g]' % r for r in rec]))
            else: ctx.ob('range', inst, not rec, f.span, '%s: still recurs on %s' % (inst, ['[%.12g, %.12g]' % r for r in rec]))
            ctx.count('recursions')

def trees(ctx):
    m = ctx.m
    for ty in ('CurveBoundingBoxTree', 'SurfaceBoundingBoxTree'):
        f = impl1(ctx, 'is_dividable', ty)
        if f is None: ctx.skip('tree', ty, 'is_dividable not found'); continue
        surf = ty.startswith('Surface')
        for deg, n, w, tol in itertools.product((1, 2, 3), (2, 5), (1e-5, .01, .24, .26, 3.), (.25, 1e-3)):
            if surf and (deg == 3 or n == 5): continue
            a = find_adt(m, ty)
            names = [q['n'] for q in a['v'][0]['f']]
            sub = 'surface' if surf else 'curve'
            if sub not in names or 'tolerance' not in names: ctx.skip('tree', ty, 'fields changed'); break
            fields = {sub: mk('call', 'object', ()), 'tolerance': tup(cf(tol), cf(tol)) if surf else cf(tol)}
            dirs = [None]
            if 'direction' in names: dirs = [unit_adt(m, 'UVDirection', d) for d in ('U', 'V')]
            for d in dirs:
                ff = dict(fields)
                if d is not None: ff['direction'] = d
                me = build(m, ty, ff)
                if me is None: ctx.skip('tree', ty, 'fields changed'); break
                def ov(I, st, nm, name, a, v):
                    if nm in ('knots_domain_interval',): return [(st, arr([cf(w), cf(w)]) if surf else cf(w))]
                    if nm in ('u_knots_domain_interval', 'v_knots_domain_interval'): return [(st, cf(w))]
                    if nm in ('degree', 'u_degree', 'v_degree'): return [(st, ci(deg))]
                    if nm == 'control_points': return [(st, arr([arr([arg('q')] * n)] * n) if surf else arr([arg('q')] * n))]
                    if nm in ('as_ref', 'deref', 'borrow') and v: return [(st, v[0])]
                outs = run_exact(ctx, f, {f.arg_names.get(1): me}, ov)
                inst = '%s of degree %d, %d points, width %g, limit %g%s' % (ty, deg, n, w, tol, '' if d is None else ' ' + d.a[1])
                if not outs: ctx.skip('tree', inst, 'not recognised'); continue
                for s, fs_, r in outs:
                    if fs_ or r not in (TRUE, FALSE): ctx.skip('tree', inst, (show(r, 4) + showf(fs_, 2))[:100]); continue
                    if w <= tol and (surf or deg > 1 or n == 2 or w < 1e-4): ctx.ob('tree', inst, r is FALSE, f.span, '%s is still divided' % inst)
                    elif w > tol: ctx.ob('tree', inst, r is TRUE, f.span, '%s is not divided' % inst)
                    ctx.count('tree cases')
        g = impl1(ctx, 'try_divide', ty)
        if g is None: continue
        for (lo, hi), q in itertools.product(((2., 6.), (-1., 7.), (100., 101.)), (0., .5, .999999)):
            for d in ([unit_adt(m, 'UVDirection', x) for x in ('U', 'V')] if surf else [None]):
                ff = {'tolerance': tup(cf(.1), cf(.1)) if surf else cf(.1), ('surface' if surf else 'curve'): mk('call', 'object', ())}
                if d is not None: ff['direction'] = d
                me = build(m, ty, ff)
                if me is None: ctx.skip('tree', ty, 'fields changed'); break
                cut = []
                def ov(I, st, nm, name, a, v):
                    if nm in ('knots_domain',): return [(st, arr([arr([cf(lo), cf(hi)])] * 2) if surf else arr([cf(lo), cf(hi)]))]
                    if nm in ('u_knots_domain', 'v_knots_domain', 'knots_domain_at'): return [(st, arr([cf(lo), cf(hi)]))]
                    if nm in ('knots_domain_interval',): return [(st, arr([cf(hi - lo)] * 2) if surf else cf(hi - lo))]
                    if nm in ('random', 'gen', 'random_range'): return [(st, cf(q))]
                    if nm in ('as_ref', 'deref', 'borrow') and v: return [(st, v[0])]
                    if nm == 'try_split' and len(v) == 2: cut.append(v[1]); return [(st, ok(tup(arg('HEAD'), arg('TAIL'))))]
                outs = run_exact(ctx, g, {g.arg_names.get(1): me}, ov)
                inst = '%s dividing [%g, %g]%s, chance %g' % (ty, lo, hi, '' if d is None else ' ' + d.a[1], q)
                if not cut: ctx.skip('tree', inst, 'split not recognised'); continue
                for c in cut:
                    x = numeric(c)
                    if x is None and c.k == 'adt': x = numeric(fld(c, 'parameter'))
                    if x is None: ctx.skip('tree', inst, show(c, 4)[:80]); continue
                    fr = (float(x) - lo) / (hi - lo)
                    ctx.ob('tree', inst, .05 < fr < .95, g.span, '%s: splits at %g' % (inst, x)); ctx.count('tree divisions')

def bisect(ctx):
    m = ctx.m
    fs = m.free('compute_bezier_segment_parameter_at_length')
    if len(fs) != 1: return ctx.skip('bisection', 'parameter at length', 'not found')
    f = fs[0]
    an = [f.arg_names.get(i) for i in range(1, f.nargs + 1)]
    if not {'length', 'tolerance', 'total_length'} <= set(an): return ctx.skip('bisection', f.id, 'arguments not recognised')
    for (lo, hi), tol, jump in itertools.product(((0., 1.), (2., 6.), (1000., 1001.)), (1., 1e-4, 0.), (.3, .5, 0., 1.)):
        n = []
        at = lo + jump * (hi - lo)
        def ov(I, st, nm, name, a, v):
            if nm == 'knots_domain': return [(st, arr([cf(lo), cf(hi)]))]
            if nm == 'compute_bezier_segment_length':
                x = numeric(v[1])
                if x is None: return None
                n.append(float(x))
                # the length jumps: no parameter has a length near the one asked for
                return [(st, cf(0.) if float(x) <= at else cf(50.))]
        outs = run_exact(ctx, f, {an[an.index('length')]: cf(20.), 'tolerance': cf(tol), 'total_length': cf(50.)}, ov, unroll=3000, budget=60000, t=8)
        inst = 'parameter at a length in [%g, %g], tolerance %g, jump at %g' % (lo, hi, tol, jump)
        stuck = len(n) > 500 and len(set(n[-200:])) <= 2
        if stuck: ctx.ob('bisection', inst, False, f.span, '%s: the search goes on at the same parameter' % inst); ctx.count('bisections'); continue
        if outs is None: ctx.skip('bisection', inst, 'budget'); continue
        if not outs or any(numeric(r) is None for s, fs_, r in outs): ctx.skip('bisection', inst, 'result not recognised'); continue
        ctx.ob('bisection', inst, len(n) <= 2200, f.span, '%s: %d evaluations' % (inst, len(n))); ctx.count('bisections')
