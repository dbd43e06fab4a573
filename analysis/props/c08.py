"""C08 options: what the caller sets is what the computation gets.  Intersection searches are interpreted with distinct numbers for every option and what
is handed to the trees, the solver and the executor is compared; solver steps and stops, containment rays, cell division and grid sizes are decision
tables over option values; every operation that takes options is interpreted for the options it passes to the operations it calls."""
from solverlab import *
from meshlab import build, knots
import itertools, math

def check(ctx):
    ctx.rule('search', 'the knot-domain division sets the width of the trees per parameter, the tolerances reach the solver and the maximum reaches the executor')
    ctx.rule('solver', 'a solver stops exactly when the step or the cost change is below the tolerance of that name (or at the iteration limit)')
    ctx.rule('ray', 'the containment ray uses the division, the minimum distance and the maximum iterations it was given')
    ctx.rule('forwarded', 'an operation hands the options it was given, unchanged, to every operation it uses')
    ctx.rule('divide', 'a cell divides below the minimum depth, never at the maximum, and in between where normals differ by more than the tolerance')
    ctx.rule('grid', 'the minimum divisions in u and v set the smallest grid in u and in v')
    ctx.rule('builder', 'a builder method changes the option it names to the given value and nothing else')
    searches(ctx); solvers(ctx); ray(ctx); boundary(ctx); forwarding(ctx); divide(ctx); grid(ctx); builders(ctx); tolerances(ctx)

def nums(v):
    r = []
    def go(x):
        if is_adt(x, OPT, 'Some'): return go(x.a[3][0])
        if x.k in ('arr', 'tup'):
            for y in x.a[0]: go(y)
            return
        n = numeric(x)
        r.append(None if n is None else float(n))
    go(v)
    return r
def close(x, y): return x is not None and abs(x - y) <= 1e-9 * max(1, abs(y))

def defaults(ctx):
    fs = impls(ctx, 'default', OPTS)
    if len(fs) != 1: return None
    I = engine(ctx); I.exact = True
    outs = I.auto(fs[0], {})
    if len(outs) != 1: return None
    r = I.value(*outs[0])
    if r.k != 'adt': return None
    d = {n: numeric(fld(r, n)) for n in r.a[2]}
    return None if None in d.values() else {n: float(x) for n, x in d.items()}

CASES = [{}, {'knot_domain_division': 5, 'max_iters': 3}, {'step_size_tolerance': 2e-2, 'cost_tolerance': 7e-2, 'knot_domain_division': 32}, {'minimum_distance': 3., 'max_iters': 45}]
def searches(ctx):
    m = ctx.m
    if options(m) is None: return ctx.skip('search', 'options', 'fields changed')
    for ty, doms in (('NurbsCurve', [(2., 6.), (10., 26.)]), ('NurbsSurface', [(2., 6.), (10., 12.), (20., 36.)])):
        fs = impls(ctx, 'find_intersections', ty)
        if len(fs) != 1: ctx.anchor_missing('find_intersections for ' + ty); continue
        f, surf = fs[0], ty == 'NurbsSurface'
        for kw in CASES + [None]:
            o = options(m, **(kw or {}))
            label = '%s and curve, %s' % ('surface' if surf else 'curve', 'no options' if kw is None else ' '.join('%s %g' % i for i in sorted(kw.items())) or 'distinct options')
            log = probe(ctx, f, doms, NONE if kw is None else some(o), surf)
            if log is None or not log['traverse']: ctx.skip('search', label, 'search not recognised'); continue
            want = dict(VALUES, **(kw or {}))
            if kw is None:
                want = defaults(ctx)
                if want is None: ctx.skip('search', label, 'defaults not recognised'); continue
            for side, lst in (('first', [t for w, t in log['tol'] if w is log['A']]), ('second', [t for w, t in log['tol'] if w is log['B']])):
                ds = doms[:2] if surf and side == 'first' else [doms[0] if side == 'first' else doms[-1]]
                if len(lst) != 1: ctx.skip('search', label + ' division ' + side, '%d trees' % len(lst)); continue
                t = lst[0][-1] if lst[0] else NONE
                got = nums(t)
                if is_adt(t, OPT, 'None') and kw is not None: ctx.ob('search', '%s division %s' % (label, side), False, f.span, '%s: the tree of the %s operand does not get the knot-domain division' % (label, side)); continue
                if any(x is None for x in got) or len(got) != len(ds): ctx.skip('search', label + ' division ' + side, show(t, 4)[:100]); continue
                ctx.ob('search', '%s division %s' % (label, side), all(close(x, (d[1] - d[0]) / want['knot_domain_division']) for x, d in zip(got, ds)), f.span, '%s: the tree of the %s operand divides down to %s' % (label, side, got))
            if not log['exec']: ctx.skip('search', label, 'solver not run'); continue
            for k, (problem, solver, state) in enumerate(log['exec'][:1]):
                mi = best_chain(state, 'max_iters')
                if mi is None: ctx.ob('search', label + ' max_iters', False, f.span, '%s: no maximum is set for the iterations' % label) if state.k == 'call' else ctx.skip('search', label + ' max_iters', 'state not recognised')
                else:
                    n = numeric(mi)
                    if n is None: ctx.skip('search', label + ' max_iters', show(mi, 4))
                    else: ctx.ob('search', label + ' max_iters', n == want['max_iters'], f.span, '%s: the maximum is %g iterations' % (label, n))
                if solver.k == 'adt':
                    for nm in ('step_size_tolerance', 'cost_tolerance'):
                        x = numeric(fld(solver, nm)) if nm in solver.a[2] else None
                        if x is None: ctx.skip('search', '%s %s' % (label, nm), show(solver, 4)[:100])
                        else: ctx.ob('search', '%s %s' % (label, nm), close(float(x), want[nm]), f.span, '%s: %s of the solver is %g' % (label, nm, x))
                ctx.count('searches')

SOLVERS = ('CurveIntersectionBFGS', 'SurfaceCurveIntersectionBFGS')
def state_adt(**kw): return adt('IterState', 'IterState', tuple(kw), tuple(kw.values()))
def run_exact(ctx, f, args, ov, inl=lambda g: None, opq=lambda g: None, t=15, unroll=120):
    I = engine(ctx, inline=inl, opaque=opq)
    I.unroll, I.budget, I.t_end, I.exact, I.cap = unroll, 200000, time.time() + t, True, 400
    def over(I, st, name, info, a):
        e = eps_over(info['name'], a)
        if e is not None: return [(st, e)]
        return ov(I, st, info['name'], name, a, [I.value(st, x) for x in a])
    I.override = over
    with deciding(Case()):
        try: return [(s, s.f, I.value(s, r)) for s, r in I.auto(f, args)]
        except Budget: return None
def solvers(ctx):
    m = ctx.m
    for ty in SOLVERS:
        f = [g for g in m.fns.values() if g.name == 'terminate' and (g.self_adt() or '').split('::')[-1] == ty]
        if len(f) != 1: ctx.skip('solver', ty, 'terminate not found'); continue
        f = f[0]
        n = 3 if 'Surface' in ty else 2
        for step, cost, it, grad in itertools.product((2e-1, 2.9e-3, 3.1e-3, 1e-5), ((1., .2), (1., 1.0004), (1., 1.0006), (1.0004, 1.)), (3, 38), (True, False)):
            if it == 38 and (step, cost[1]) != (2e-1, .2): continue
            sv = build(m, ty, {'step_size_tolerance': cf(3e-3), 'cost_tolerance': cf(5e-4)})
            if sv is None: ctx.skip('solver', ty, 'fields changed'); break
            def ov(I, st, nm, name, a, v):
                if nm in ('get_gradient', 'take_gradient'): return [(st, some(arr([cf(1.)] * n)) if grad else NONE)]
                if nm in ('get_hessian', 'get_inv_hessian'): return [(st, some(arr([cf(1.)] * n * n)))]
                if nm == 'get_cost': return [(st, cf(cost[0]))]
                if nm == 'get_prev_cost': return [(st, cf(cost[1]))]
                if nm == 'get_iter': return [(st, ci(it))]
                if nm == 'get_max_iters': return [(st, ci(37))]
                if nm == 'mul' and len(v) == 2: return [(st, arg('step'))]
                if nm in ('norm', 'magnitude') and len(v) == 1: return [(st, cf(step))]
                if nm in ('is_nan', 'is_infinite') and len(v) == 1: return [(st, FALSE)]
                return None
            an = [f.arg_names.get(i) for i in range(1, f.nargs + 1)]
            outs = run_exact(ctx, f, {an[0]: sv, an[1]: state_adt(iter=ci(it), max_iters=ci(37), param=arg('p'))}, ov)
            inst = '%s stop: step %g, cost %g after %g, iteration %d%s' % (ty, step, cost[0], cost[1], it, '' if grad else ', no gradient')
            if outs is None or not outs: ctx.skip('solver', inst, 'not recognised'); continue
            want = it > 37 or (grad and step < 3e-3) or abs(cost[0] - cost[1]) < 5e-4
            for s, fs, r in outs:
                k = r.a[1] if r.k == 'adt' else None
                if fs or k not in ('NotTerminated', 'Terminated'): ctx.skip('solver', inst, (show(r, 4) + showf(fs, 2))[:100]); continue
                ctx.ob('solver', inst, (k == 'Terminated') == want, f.span, '%s: %s' % (inst, k)); ctx.count('solver cases')

def ray(ctx):
    m = ctx.m
    fs = m.free('x_ray_intersection')
    if len(fs) != 1: return ctx.skip('ray', 'x_ray_intersection', 'not found')
    f = fs[0]
    C = arg('CURVE')
    an = [f.arg_names.get(i) for i in range(1, f.nargs + 1)]
    io = [i for i in range(1, f.nargs + 1) if OPTS in f.lty(i).s]
    ip = [i for i in range(1, f.nargs + 1) if 'OPoint' in f.lty(i).s or 'Point' in f.lty(i).s]
    ic = [i for i in range(1, f.nargs + 1) if 'NurbsCurve' in f.lty(i).s]
    if len(io) != 1 or len(ip) != 1 or len(ic) != 1 or len(an) != 4: return ctx.skip('ray', f.id, 'arguments not recognised')
    rest = [i for i in range(1, 5) if i not in (io[0], ip[0], ic[0])][0]
    for kw, height in itertools.product(CASES + [{'max_iters': 12}], (0., 5e-3, 2e-2, 3.5, 4.)):
        o = options(m, **kw)
        if o is None: return ctx.skip('ray', 'options', 'fields changed')
        want = dict(VALUES, **kw)
        tol, evals = [], []
        def ov(I, st, nm, name, a, v):
            if v and v[0] is C and nm == 'knots_domain': return [(st, arr([cf(2.), cf(6.)]))]
            if v and v[0] is C and nm == 'knots_domain_interval': return [(st, cf(4.))]
            if nm == 'new' and 'BoundingBoxTree' in name and 'Traversal' not in name:
                if v[0] is C: tol.append(v[-1])
                return [(st, mk('call', 'tree', (v[0],)))]
            if nm == 'try_line' or nm == 'polyline': return [(st, mk('call', 'line', ()))] if nm == 'polyline' else [(st, ok(mk('call', 'line', ())))]
            if nm == 'try_traverse': return [(st, ok(mk('call', 'traversal', ())))]
            if nm in ('into_pairs_iter', 'pairs_iter', 'into_pairs', 'pairs'): return [(st, arr([arr([mk('call', 'cell', (ci(0),)), mk('call', 'ray', ())])]))]
            if nm in ('curve', 'curve_owned') and v and v[0].k == 'call' and v[0].a[0] == 'cell': return [(st, mk('call', 'piece', ()))]
            if nm == 'knots_domain' and v and v[0].k == 'call' and v[0].a[0] == 'piece': return [(st, arr([cf(2.), cf(6.)]))]
            if nm == 'point_at' and v and v[0].k == 'call' and v[0].a[0] == 'piece':
                t = numeric(v[1])
                if t is None: return None
                evals.append(float(t))
                # the piece rises from below the ray to above it; inside, it stays `height` above
                return [(st, arr([cf(9.), cf(-7.) if t == 2 else cf(7.) if t == 6 else cf(height)]))]
            return None
        outs = run_exact(ctx, f, {an[ic[0] - 1]: C, an[ip[0] - 1]: arr([cf(0.), cf(0.)]), an[rest - 1]: cf(50.), an[io[0] - 1]: some(o)}, ov, inl=lambda g: True if g.span.startswith('src/contains') else None)
        inst = 'containment ray %g off, %s' % (height, ' '.join('%s %g' % i for i in sorted(kw.items())) or 'distinct options')
        if not outs: ctx.skip('ray', inst, 'budget'); continue
        if len(tol) == 1 and nums(tol[0]) and nums(tol[0])[0] is not None:
            ctx.ob('ray', inst + ' division', close(nums(tol[0])[0], 4. / want['knot_domain_division']), f.span, '%s: the tree divides down to %s' % (inst, nums(tol[0])))
        elif tol and is_adt(tol[0], OPT, 'None'): ctx.ob('ray', inst + ' division', False, f.span, '%s: the tree does not get the knot-domain division' % inst)
        else: ctx.skip('ray', inst + ' division', 'tree not recognised')
        n = len(evals) - 2
        for s, fs, r in outs:
            if fs or not is_adt(r, RES, 'Ok') or r.a[3][0].k != 'arr' or len(outs) != 1: ctx.skip('ray', inst, (show(r, 4) + showf(fs, 2))[:100]); continue
            found = len(r.a[3][0].a[0])
            ctx.ob('ray', inst + ' distance', found == (height < want['minimum_distance']), f.span, '%s: %d crossings reported' % (inst, found))
            if not found: ctx.ob('ray', inst + ' iterations', n == want['max_iters'], f.span, '%s: %d iterations' % (inst, n))
            ctx.count('ray cases')

def boundary(ctx):
    m = ctx.m
    for ty in ('NurbsCurve', 'CompoundCurve'):
        fs = [f for f in impls(ctx, 'contains', ty)]
        if len(fs) != 1: ctx.anchor_missing('contains for ' + ty); continue
        f = fs[0]
        an = [f.arg_names.get(i) for i in range(1, 4)]
        for md, d in itertools.product((1e-2, .5, 1e-6), (0., 1e-7, 1e-3, 2e-2, .4, .6)):
            o = options(m, minimum_distance=md)
            if o is None: return ctx.skip('ray', 'options', 'fields changed')
            def ov(I, st, nm, name, a, v):
                if nm in ('into', 'from') and len(v) == 1: return [(st, arg('BOX'))]
                if nm == 'contains' and v and v[0] is arg('BOX'): return [(st, TRUE)]
                if nm == 'size': return [(st, arr([cf(4.), cf(4.)]))]
                if nm in ('find_closest_point', 'find_closest'): return [(st, ok(arr([cf(d), cf(0.)])))]
                if nm in ('is_closed',): return [(st, TRUE)]
                if nm == 'spans': return [(st, arr([arg('SPAN')]))]
                if nm == 'x_ray_intersection': return [(st, ok(arr([])))]
                if nm in ('norm', 'magnitude', 'norm_squared') and len(v) == 1:
                    xs = numbers(v[0]) if v[0].k in ('arr', 'tup') else [0.] if numeric(v[0]) == 0 else coords(v[0])
                    if xs is not None:
                        q = sum(x * x for x in xs)
                        return [(st, cf(q if 'squared' in nm else math.sqrt(q)))]
            self_ = build(m, 'CompoundCurve', {'spans': arr([arg('SPAN')])}) if ty == 'CompoundCurve' else None
            args = {an[1]: arr([cf(0.), cf(0.)]), an[2]: some(o)}
            if self_ is not None: args[an[0]] = self_
            outs = run_exact(ctx, f, args, ov, inl=lambda g: True if g.span.startswith('src/contains') else None)
            inst = '%s contains a point %g from its outline, minimum distance %g' % (ty, d, md)
            if not outs: ctx.skip('ray', inst, 'budget'); continue
            for s, fs_, r in outs:
                x = r.a[3][0] if is_adt(r, RES, 'Ok') else None
                if fs_ or x not in (TRUE, FALSE): ctx.skip('ray', inst, (show(r, 4) + showf(fs_, 2))[:100]); continue
                ctx.ob('ray', inst, (x is TRUE) == (d < md), f.span, '%s: %s' % (inst, show(x))); ctx.count('boundary cases')

ASK = {'find_intersections', 'contains', 'boolean', 'union', 'intersection', 'difference', 'clip', 'x_ray_intersection', 'distribute_interiors_to_regions', 'tessellate', 'constrained_tessellate'}
def forwarding(ctx):
    m = ctx.m
    o = options(m)
    if o is None: return ctx.skip('forwarded', 'options', 'fields changed')
    OP = some(o)
    tys = ('CurveIntersectionSolverOptions', 'AdaptiveTessellationOptions')
    ad = build(m, 'AdaptiveTessellationOptions', {'norm_tolerance': cf(.3), 'min_divs_u': ci(5), 'min_divs_v': ci(6), 'min_depth': ci(1), 'max_depth': ci(4)})
    seen = 0
    for f in sorted(m.fns.values(), key=lambda f: f.id):
        if f.kind == 'Closure' or not f.blocks or 'tests' in f.span: continue
        idx = [i for i in range(1, f.nargs + 1) if f.lty(i).s.startswith('std::option::Option') and any(t in f.lty(i).s for t in tys)]
        if f.name == 'clip' and f.kind == 'Fn': idx = [i for i in range(1, f.nargs + 1) if f.arg_names.get(i) in ('option', 'options')]
        if f.name == 'tessellate' and not idx and f.nargs == 2 and f.lty(2).s.startswith('std::option::Option'): idx = [2]
        if len(idx) != 1 or f.name.startswith('probe'): continue
        given = OP if OPTS in f.lty(idx[0]).s or f.name == 'clip' else some(ad) if 'Adaptive' in f.lty(idx[0]).s else some(cf(.125))
        if given.k != 'adt' or given.a[3][0] is None: continue
        log = []
        def ov(I, st, name, info, a):
            nm = info['name']
            v = [I.value(st, x) for x in a]
            if nm in ASK and len(v) >= 2:
                if v[-1].k == 'adt' and v[-1].a[0].split('::')[-1] == 'Option' or v[-1].k == 'call': log.append((nm, v[-1]))
                elif len(v) == 5 and nm == 'clip': log.append((nm, v[3]))
                return [(st, mk('call', 'done_' + nm, (ci(len(log)),)))] if nm in ('find_intersections', 'contains', 'clip', 'x_ray_intersection', 'boolean', 'distribute_interiors_to_regions') else None
        I = engine(ctx, inline=lambda g: None, opaque=lambda g: True if g.name in ASK else None)
        I.unroll, I.budget, I.t_end, I.cap = 3, 60000, time.time() + 4, 60
        I.override = ov
        try: I.auto(f, {f.arg_names.get(idx[0]): given})
        except Budget: pass
        k = 0
        for nm, x in log:
            inst = '%s -> %s' % (short(f), nm)
            if nm == 'clip' and x.k != 'adt': continue
            if x is given: ctx.ob('forwarded', inst, True); k += 1
            elif x.k == 'adt' and x.a[0].split('::')[-1] == 'Option' and (is_adt(x, OPT, 'None') or not find(x, lambda t: t.k in ('arg', 'ite', 'fld', 'proj') or t.k == 'call' and t.a[1])): ctx.ob('forwarded', inst, False, f.span, '%s gets %s instead of the options given to %s' % (nm, show(x, 4)[:120], f.name)); k += 1
            else: ctx.skip('forwarded', inst, show(x, 4)[:80])
        seen += k
    ctx.count('forwarded options', seen)
def short(f): return re.sub(r'[a-z_0-9]+::', '', f.id)[-90:]

def divide(ctx):
    m = ctx.m
    fs = m.method('AdaptiveTessellationNode', 'should_divide')
    if len(fs) != 1: return ctx.skip('divide', 'should_divide', 'not found')
    f = fs[0]
    an = [f.arg_names.get(i) for i in range(1, f.nargs + 1)]
    Cn = [arg('corner%d' % i) for i in range(4)]
    nd = build(m, 'AdaptiveTessellationNode', {'id': ci(0), 'children': NONE, 'corners': arr(Cn), 'neighbors': arg('nb'), 'mid_points': arg('mp'), 'direction': arg('dir'), 'uv_center': arg('uc')})
    io = [i for i in range(1, f.nargs + 1) if 'AdaptiveTessellationOptions' in f.lty(i).s]
    idp = [i for i in range(1, f.nargs + 1) if f.lty(i).s == 'usize']
    if nd is None or len(io) != 1 or len(idp) != 1: return ctx.skip('divide', f.id, 'cell fields or arguments changed')
    # normals along one axis: differences between corners are differences of these numbers
    flat = (0., 0., 0., 0.)
    sets = {'flat': flat, 'nearly flat': (0., .05, .1, .02), 'across u': (0., 3., 3., 0.), 'across v': (0., 0., 3., 3.), 'both': (0., 3., 9., -6.), 'one corner': (0., 0., 3., 0.)}
    for (mn, mx), d, (nn, zs), bad, tol in itertools.product(((0, 3), (2, 5), (4, 4), (0, 0)), range(0, 7), sets.items(), (False, True), (.3, 20.)):
        if tol == 20. and nn not in ('across u', 'flat', 'across v'): continue
        op_ = build(m, 'AdaptiveTessellationOptions', {'norm_tolerance': cf(tol), 'min_divs_u': ci(7), 'min_divs_v': ci(9), 'min_depth': ci(mn), 'max_depth': ci(mx)})
        if op_ is None: return ctx.skip('divide', 'options', 'fields changed')
        def ov(I, st, nm, name, a, v):
            if nm == 'normal' and v and v[0] in Cn: return [(st, arr([cf(zs[Cn.index(v[0])]), cf(0.), cf(0.)]))]
            if nm in ('has_bad_normals',): return [(st, TRUE if bad else FALSE)]
            if nm in ('is_normal_degenerated', 'is_degenerate', 'is_normal_degenerate'): return [(st, TRUE if bad else FALSE)]
            if nm == 'fix_normals': return [(st, UNIT)]
            if nm in ('is_u_constrained', 'is_v_constrained'): return [(st, FALSE)]
            if nm in ('norm_squared', 'magnitude_squared', 'norm', 'magnitude') and len(v) == 1:
                xs = numbers(v[0]) if v[0].k in ('arr', 'tup') else [0.] if numeric(v[0]) == 0 else coords(v[0])
                if xs is None: return None
                s = sum(float(x) ** 2 for x in xs)
                return [(st, cf(s if 'squared' in nm else math.sqrt(s)))]
            return None
        args = {an[0]: nd, an[io[0] - 1]: op_, an[idp[0] - 1]: ci(d)}
        inst = 'depth %d of %d to %d, normals %s, tolerance %g%s' % (d, mn, mx, nn, tol, ', degenerate' if bad else '')
        outs = run_exact(ctx, f, args, ov)
        if not outs: ctx.skip('divide', inst, 'budget'); continue
        for s, fs_, r in outs:
            k = 'none' if is_adt(r, OPT, 'None') else r.a[3][0].a[1] if is_adt(r, OPT, 'Some') and r.a[3][0].k == 'adt' else None
            if fs_ or k is None: ctx.skip('divide', inst, (show(r, 4) + showf(fs_, 2))[:100]); continue
            if d < mn: want = ('Both',)
            elif d >= mx: want = ('none',)
            elif bad: continue
            else:
                # corners 0-1 and 2-3 are the edges along u; splitting u shortens them.  The naming of the direction is not judged here, only whether it divides
                big = max(abs(zs[i] - zs[(i + 1) % 4]) for i in range(4)) ** 2 > tol
                want = ('U', 'V', 'Both') if big else ('none',)
            ctx.ob('divide', inst, k in want, f.span, '%s: divides %s' % (inst, k)); ctx.count('division cases')

def grid(ctx):
    m = ctx.m
    fs = m.free('surface_adaptive_tessellate')
    ent = [f for f in m.fns.values() if f.name == 'tessellate' and (f.self_adt() or '').split('::')[-1] == 'NurbsSurface']
    if len(ent) != 1: return ctx.anchor_missing('tessellate for NurbsSurface')
    f = ent[0]
    S = arg('SURFACE')
    an = [f.arg_names.get(i) for i in range(1, f.nargs + 1)]
    for (du, dv), (nu, nv), o in itertools.product(((2, 2), (3, 2), (2, 1), (1, 3)), ((3, 3), (4, 6)), ((1, 1), (20, 1), (1, 20), (17, 23), None)):
        if nu <= du or nv <= dv: continue
        op_ = None if o is None else build(m, 'AdaptiveTessellationOptions', {'norm_tolerance': cf(.3), 'min_divs_u': ci(o[0]), 'min_divs_v': ci(o[1]), 'min_depth': ci(0), 'max_depth': ci(3)})
        if o is not None and op_ is None: return ctx.skip('grid', 'options', 'fields changed')
        sites, opts = set(), []
        def ov(I, st, nm, name, a, v):
            if v and v[0] is S:
                if nm == 'u_degree': return [(st, ci(du))]
                if nm == 'v_degree': return [(st, ci(dv))]
                if nm == 'control_points': return [(st, arr([arr([arg('p%d_%d' % (i, j)) for j in range(nv)]) for i in range(nu)]))]
                if nm in ('u_knots', 'v_knots'):
                    n, d = (nu, du) if nm[0] == 'u' else (nv, dv)
                    return [(st, knots(m, [float(max(0, min(i - d, n - d))) for i in range(n + d + 1)]))]
                if nm in ('u_knots_domain', 'v_knots_domain'): return [(st, arr([cf(0.), cf(float(nu - du if nm[0] == 'u' else nv - dv))]))]
                if nm in ('u_knots_domain_interval', 'v_knots_domain_interval'): return [(st, cf(float(nu - du if nm[0] == 'u' else nv - dv)))]
                if nm in ('rational_derivatives', 'point_at', 'normal_at', 'derivatives'):
                    q = [numeric(x) for x in v[1:3]]
                    if None in q: return None
                    sites.add(tuple(round(float(x), 9) for x in q)); return [(st, arg('ds%d' % len(sites)))]
            if nm == 'divide' and 'Processor' in name: opts.append(v[-1]); return [(st, UNIT)]
            if nm == 'new' and 'SurfaceTessellation' in name: return [(st, arg('MESH'))]
            return None
        inst = 'degrees %d,%d with %dx%d points, %s' % (du, dv, nu, nv, 'no options' if o is None else 'at least %dx%d' % o)
        outs = run_exact(ctx, f, {an[0]: S, an[1]: NONE if o is None else some(op_)}, ov, inl=lambda g: True if g.span.startswith(('src/tessellation', 'src/knot')) else None, unroll=900, t=20)
        if not outs or not sites: ctx.skip('grid', inst, 'not recognised'); continue
        for k, (axis, deg, n) in enumerate((('u', du, nu), ('v', dv, nv))):
            if deg < 2: continue
            xs = sorted({s[k] for s in sites})
            least = 1 if o is None else o[k]
            top = float(n - deg)
            good = len(xs) - 1 >= least and xs[0] == 0 and abs(xs[-1] - top) < 1e-9
            ctx.ob('grid', inst + ' ' + axis, good, f.span, '%s: %d divisions in %s from %g to %g' % (inst, len(xs) - 1, axis, xs[0], xs[-1]))
            # more than what the shape needs by itself only when asked for
            ctx.count('grids')
        if o is not None:
            for x in opts[:1]: ctx.ob('forwarded', 'cells of ' + inst, x is op_, f.span, '%s: cells are divided with %s' % (inst, show(x, 4)[:100])) if x.k == 'adt' else None

def builders(ctx):
    m = ctx.m
    for ty in (OPTS, 'AdaptiveTessellationOptions') + SOLVERS:
        a = find_adt(m, ty)
        if a is None: continue
        names = [q['n'] for q in a['v'][0]['f']]
        for f in sorted(m.fns.values(), key=lambda f: f.id):
            if f.kind == 'Closure' or not f.name.startswith('with_') or (f.self_adt() or '').split('::')[-1] != ty or f.nargs != 2: continue
            nm = f.name[5:]
            if nm not in names: continue
            I = engine(ctx)
            me = adt(a['path'], a['v'][0]['n'], names, [arg('old_' + n) for n in names])
            outs = I.auto(f, {f.arg_names.get(1): me, f.arg_names.get(2): arg('NEW')})
            for s, r in outs:
                r = I.value(s, r)
                if r.k != 'adt' or s.f: ctx.skip('builder', '%s::%s' % (ty, f.name), show(r, 4)[:100]); continue
                got = {n: fld(r, n) for n in names}
                ctx.ob('builder', '%s::%s' % (ty, f.name), all(got[n] is (arg('NEW') if n == nm else arg('old_' + n)) for n in names), f.span, '%s::%s gives %s' % (ty, f.name, show(r, 4))); ctx.count('builders')

def tolerances(ctx):
    """the tolerance of a curve tessellation reaches the division of the curve; the normal tolerance that of a trimming curve"""
    m = ctx.m
    f = [g for g in m.fns.values() if g.name == 'tessellate' and (g.self_adt() or '').split('::')[-1] == 'NurbsCurve']
    if len(f) == 1:
        f = f[0]
        for t in (.125, .5):
            got = []
            def ov(I, st, nm, name, a, v):
                if nm == 'degree': return [(st, ci(3))]
                if nm == 'knots_domain': return [(st, arr([cf(2.), cf(6.)]))]
                if nm == 'tessellate_adaptive' and len(v) >= 4: got.append(v); return [(st, arg('PTS'))]
                return None
            outs = run_exact(ctx, f, {f.arg_names.get(2): some(cf(t))}, ov)
            for v in got:
                xs = [float(numeric(x)) for x in v if numeric(x) is not None]
                inst = 'curve tessellation with tolerance %g' % t
                if len(xs) != 3: ctx.skip('forwarded', inst, 'arguments not recognised'); continue
                ctx.ob('forwarded', inst, xs == [2., 6., t], f.span, '%s: divides with %s' % (inst, xs))
    f = m.free('trimmed_surface_adaptive_tessellate')
    if len(f) != 1: return
    f = f[0]
    ad = build(m, 'AdaptiveTessellationOptions', {'norm_tolerance': cf(.3), 'min_divs_u': ci(5), 'min_divs_v': ci(6), 'min_depth': ci(1), 'max_depth': ci(4)})
    ts = build(m, 'TrimmedSurface', {'surface': arg('SURF'), 'exterior': some(arg('EXT')), 'interiors': arr([arg('INT0'), arg('INT1')])})
    if ad is None or ts is None: return ctx.skip('forwarded', 'trimmed surface', 'fields changed')
    cons = [('no constraints', NONE)]
    c2 = build(m, 'TrimmedSurfaceConstraints', {'exterior': NONE, 'interiors': arr([NONE, NONE])})
    if c2 is not None: cons.append(('no parameters given', some(c2)))
    io = [i for i in range(1, f.nargs + 1) if 'AdaptiveTessellationOptions' in f.lty(i).s]
    ic = [i for i in range(1, f.nargs + 1) if 'TrimmedSurfaceConstraints' in f.lty(i).s]
    if len(io) != 1 or len(ic) != 1: return
    for label, c in cons:
        got = []
        class Done(Exception): pass
        def ov(I, st, nm, name, a, v):
            if nm == 'tessellate_uv_curve_adaptive' and len(v) == 3: got.append((v[0], v[2])); return [(st, arg('VERTS'))]
            if nm == 'tessellate': got.append(('surface', v[-1])); raise Done
            return None
        try: outs = run_exact(ctx, f, {f.arg_names.get(1): ts, f.arg_names.get(ic[0]): c, f.arg_names.get(io[0]): some(ad)}, ov)
        except Done: pass
        cur = {w: x for w, x in got if w != 'surface'}
        for w in (arg('EXT'), arg('INT0'), arg('INT1')):
            inst = 'trimmed surface, %s: curve %s' % (label, w.a[0])
            if w not in cur or numeric(cur[w]) is None: ctx.skip('forwarded', inst, 'not recognised'); continue
            ctx.ob('forwarded', inst, close(float(numeric(cur[w])), .3), f.span, '%s is divided with tolerance %g' % (inst, numeric(cur[w])))
        for w, x in got:
            if w == 'surface': ctx.ob('forwarded', 'trimmed surface, %s: surface' % label, is_adt(x, OPT, 'Some') and x.a[3][0] is ad, f.span, 'the surface of a trimmed surface is tessellated with %s' % show(x, 4)[:100]) if x.k == 'adt' else ctx.skip('forwarded', 'trimmed surface', show(x, 3))
