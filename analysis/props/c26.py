"""C26 closest points: the solver framework is replaced by one that ends anywhere, under assignments of the control points and the target; the parameter returned
is never farther from the target than the sampled points or the end of the solver. The steps themselves: value, slope and curvature given to the solver are
those of the squared distance, a step goes by slope over curvature, and on surfaces a step that raises the distance is not taken."""
from termlab import *
from props.c25 import dot

CURVES = [(1, [0., 0., .4, 1., 1.]), (2, [0., 0., 0., 1., 1., 1.]), (3, [-1., -1., -1., -1., 0., 2., 2., 2., 2.]), (2, [0., 1., 2., 3., 5., 6., 7.])]
def check(ctx):
    ctx.rule('nearest', 'the parameter returned is no farther than the samples, the start and the end of the solver')
    ctx.rule('point', 'the closest point is the point at the closest parameter')
    ctx.rule('slope', 'the solver is given slope and curvature of half the squared distance')
    ctx.rule('step', 'a step goes by slope over curvature; on surfaces never to a point farther away')
    ctx.assumptions.append('where the solver of argmin ends is arbitrary: a finite parameter of the domain; its best parameter is the one of least cost, or the last one where the solver reports no cost')
    curves(ctx); chords(ctx); surfaces(ctx); points(ctx); slopes(ctx); steps(ctx)

def closest(ctx): return {ty: public(ctx, ty, 'find_closest_parameter') for ty in ('NurbsCurve', 'NurbsSurface')}
def vec2(t):
    while t.k == 'adt' and len(t.a[3]) == 1: t = t.a[3][0]
    return list(t.a[0]) if t.k in ('arr', 'tup') and len(t.a[0]) == 2 else None
def solver(end, log):
    """argmin, ending at end (None: where it started)"""
    def over(I, st, name, info, a):
        nm = info['name']
        if nm == 'new' and 'Executor' in name: return [(st, mk('call', 'exec', (mk('call', 'iterstate', ()),)))]
        if not a: return None
        v = I.value(st, a[0])
        if v.k == 'call' and v.a[0] == 'exec':
            if nm == 'configure':
                s = I.apply1(st, a[1], [v.a[1][0]], ('cfg',))
                return [(st, mk('call', 'exec', (I.value(st, s),)))]
            if nm == 'run':
                x = v.a[1][0]
                start = None
                while x.k == 'call' and x.a[0] != 'iterstate':
                    if x.a[0] == 'param' and start is None: start = x.a[1][1]
                    x = x.a[1][0]
                log.append(start)
                return None if start is None else [(st, ok(mk('call', 'solved', (start if end is None else end,))))]
        if nm in ('param', 'max_iters', 'cost', 'target_cost', 'inv_hessian', 'gradient', 'hessian') and find(v, lambda x: x.k == 'call' and x.a[0] == 'iterstate') and len(a) == 2:
            return [(st, mk('call', nm, (v, I.value(st, a[1]))))]
        if v.k == 'call' and v.a[0] == 'solved':
            if nm in ('state', 'into_state'): return [(st, v)]
            if nm in ('get_best_param', 'get_param', 'take_best_param', 'take_param'): return [(st, some(v.a[1][0]))]
        return None
    return over
def dist(a, b): return nrm([x - y for x, y in zip(a, b)])
def targets(spec, env, seed):
    """targets around the curve, beyond its ends and far away"""
    lo, hi = domain(*spec)
    cps = [[env['P%d_%d' % (i, c)] for c in range(2)] + [weight(i)] for i in range(len(spec[1]) - spec[0] - 1)]
    r = random.Random(seed)
    on = point(spec, cps, lo + (hi - lo) * .37)
    end = point(spec, cps, hi)
    late = point(spec, cps, lo + (hi - lo) * .985)
    return cps, [on, late, [c + r.uniform(-.4, .4) for c in on], [c + 3. for c in end], [r.uniform(-30, 30) for _ in on]]
def curves(ctx):
    f = closest(ctx)['NurbsCurve']
    if not f: return
    for k, spec in enumerate(CURVES):
        lo, hi = domain(*spec)
        c = ncurve(ctx.m, spec, 'P', 3)
        if c is None: ctx.skip('nearest', label(spec, k), 'fields changed'); continue
        env0 = penv(spec, 3, {}, 11 + k)
        cps, ts = targets(spec, env0, k)
        n = len(cps) * spec[0]
        for j, at in enumerate(ts):
            samples = [(i, point(spec, cps, lo + (hi - lo) * i / (n - 1))) for i in range(n)]
            best = min(dist(p, at) for _, p in samples)
            for how, end in (('stays at its start', None), ('ends at the start of the curve', lo), ('ends at the end of the curve', hi), ('ends in the middle', (lo + hi) / 2), ('ends near the end', lo + (hi - lo) * .93)):
                env = dict(env0, **{'t%d' % i: x for i, x in enumerate(at)})
                log = []
                def test(r, e):
                    r = ok_of(r)
                    if end is None:
                        try: w = started(spec, cps, at, num(log[-1], e), samples)
                        except (Unknown, IndexError): return None
                        if w: return w
                    if r == 'err': return 'gives an error'
                    u = None if r is None else numeric(r)
                    if r is not None and u is None:
                        try: u = num(r, e)
                        except Unknown: return None
                    if u is None: return None
                    if not lo - 1e-9 <= u <= hi + 1e-9: return 'is at %g, outside of the domain' % u
                    d = dist(point(spec, cps, min(max(u, lo), hi)), at)
                    if d > best + 1e-7 * (1 + best): return 'is %g away although a sampled point is only %g away' % (d, best)
                    if end is not None and d > dist(point(spec, cps, end), at) + 1e-7 * (1 + d): return 'is farther than the point found by the solver'
                    return ''
                verdicts(ctx, 'nearest', 'closest parameter on %s, target %d, solver %s' % (label(spec, k), j, how), f, [c, arr(symbols('t', 2))], 3, [env], test, more=solver(None if end is None else cf(end), log), t=40)
def started(spec, cps, at, u, samples):
    """the solver starts where the sampled polygon is closest to the target, or at the closest sample"""
    lo, hi = domain(*spec)
    n = len(samples)
    def chord(i):
        a, b = samples[i][1], samples[i + 1][1]
        d = axpy((1, b), (-1, a)); q = dot(d, d)
        x = 0 if q < 1e-18 else min(max(dot(axpy((1, at), (-1, a)), d) / q, 0.), 1.)
        return dist(at, axpy((1 - x, a), (x, b)))
    ds = [chord(i) for i in range(n - 1)]
    x = (u - lo) / (hi - lo) * (n - 1)
    mine = [ds[i] for i in range(n - 1) if i - 1e-6 <= x <= i + 1 + 1e-6]
    if not mine: return 'is searched from %g, outside of the domain' % u
    if min(mine) <= min(ds) + 1e-9: return ''
    ps = [dist(p, at) for _, p in samples]
    if abs(x - round(x)) < 1e-6 and ps[int(round(x))] <= min(ps) + 1e-9: return ''
    return 'is searched from %g, where the samples are %g away, although others are %g away' % (u, min(mine), min(ds))

def chords(ctx):
    """the closest point of a chord, with its parameter"""
    f = (ctx.m.free('segment_closest_point') + [None])[0]
    if f is None or len(names(f)) != 5: return
    a, b, (u0, u1) = [1., 2., -1.], [3., 1., 1.], (2., 7.)
    d = axpy((1, b), (-1, a))
    for w in (-1.5, 0., .25, .8, 1., 1.4, 2.5):
        side = [.4, -.2, -.5]
        p = axpy((1, a), (w, d), (1, side))
        x = min(max(dot(axpy((1, p), (-1, a)), d) / dot(d, d), 0.), 1.)
        def test(r, e):
            if r.k != 'tup' or len(r.a[0]) != 2: return None
            try: u, q = num(plain(r.a[0][0]), e), values(plain(r.a[0][1]), e)
            except Unknown: return None
            if not near(q, axpy((1 - x, a), (x, b))): return 'is not the closest one'
            return '' if abs(u - u0 - (u1 - u0) * x) < 1e-9 else 'has parameter %g instead of %g' % (u, u0 + (u1 - u0) * x)
        V = lambda v: arr([cf(c) for c in v])
        verdicts(ctx, 'nearest', 'point of a chord closest to one at %g' % w, f, [V(p), V(a), V(b), cf(u0), cf(u1)], 3, [{}], test)

def surf_env(s, seed):
    e = {}
    r = random.Random(seed)
    (p, ku), (q, kv) = SPECS[s[0]], SPECS[s[1]]
    for i in range(len(ku) - p - 1):
        for j in range(len(kv) - q - 1):
            for c, x in enumerate((3. * i, 2.5 * j, 0.)): e['P%d_%d_%d' % (i, j, c)] = x + r.uniform(-.4, .4)
    return e
def derivs(s, env, u, v):
    S = srational(*s, u, v, 2)
    return {k: [sum(float(c) * (env[x] if x else 1.) for x, c in f.items()) for f in fs] for k, fs in S.items()}
SURF = [(0, 2), (2, 1)]
def surfaces(ctx):
    f = closest(ctx)['NurbsSurface']
    if not f: return
    for k, s in enumerate(SURF):
        S = nsurf(ctx.m, *s)
        if S is None: ctx.skip('nearest', 'surface #%d' % k, 'fields changed'); continue
        (ul, uh), (vl, vh) = domain(*SPECS[s[0]]), domain(*SPECS[s[1]])
        env = surf_env(s, 5 + k)
        at = lambda x, y: (ul + (uh - ul) * x, vl + (vh - vl) * y)
        uvs = [at(x, y) for x in (0., .5, 1.) for y in (0., .4, .7, 1.)]
        pts = [derivs(s, env, *q)[0, 0] for q in uvs]
        tess = build(ctx.m, 'SurfaceTessellation', {'points': arr([arr([cf(c) for c in p]) for p in pts]), 'normals': arr([]), 'faces': arr([]), 'uvs': arr([arr([cf(c) for c in q]) for q in uvs])})
        if tess is None: ctx.skip('nearest', 'surface #%d' % k, 'fields of the tessellation changed'); continue
        r = random.Random(k)
        for j, near_to in enumerate((0, 5, len(pts) - 1)):
            target = [c + r.uniform(-.3, .3) for c in pts[near_to]]
            e1 = dict(env, **{'t%d' % i: x for i, x in enumerate(target)})
            best = min(dist(p, target) for p in pts)
            for how, end in (('stays at its start', None), ('ends elsewhere', at(.45, .38))):
                log = []
                sv = solver(None if end is None else arr([cf(c) for c in end]), log)
                def more(I, st, name, info, a):
                    if info['name'] in ('tessellate', 'regular_tessellate') and len(a) >= 2: return [(st, tess)]
                    return sv(I, st, name, info, a)
                def test(r, e):
                    r = ok_of(r)
                    if r == 'err': return 'gives an error'
                    q = None if r is None else vec2(r)
                    try:
                        q = None if q is None else [num(x, e) for x in q]
                        st = [num(x, e) for x in vec2(log[-1])] if log and vec2(log[-1]) else None
                    except Unknown: return None
                    if q is None or st is None: return None
                    if not (ul - 1e-9 <= q[0] <= uh + 1e-9 and vl - 1e-9 <= q[1] <= vh + 1e-9): return 'is at (%g, %g), outside of the domain' % tuple(q)
                    d = dist(derivs(s, e, *st)[0, 0], target)
                    if d > best + 1e-7: return 'is searched from a point %g away although a vertex of the tessellation is %g away' % (d, best)
                    d = dist(derivs(s, e, *q)[0, 0], target)
                    return '' if d <= (best if end is None else dist(derivs(s, e, *end)[0, 0], target)) + 1e-7 else 'is %g away, farther than the point the solver found' % d
                verdicts(ctx, 'nearest', 'closest parameter on surface #%d, target %d, solver %s' % (k, j, how), f, [S, arr(symbols('t', 3))], 4, [e1], test, more=more, t=40)

def points(ctx):
    """the point is the point at the closest parameter"""
    for ty in ('NurbsCurve', 'NurbsSurface'):
        f = public(ctx, ty, 'find_closest_point')
        if not f: continue
        curve = ty == 'NurbsCurve'
        s, spec = SURF[1], CURVES[2]
        me = ncurve(ctx.m, spec, 'P', 4) if curve else nsurf(ctx.m, *s)
        if me is None: ctx.skip('point', ty, 'fields changed'); continue
        env = dict(penv(spec, 4, {}, 3) if curve else surf_env(s, 3), t0=.3, t1=.2, t2=1.)
        us = domain(*spec) if curve else [(a, b) for a in domain(*SPECS[s[0]]) for b in domain(*SPECS[s[1]])]
        us = list(us) + ([.7] if curve else [tuple(x + (y - x) * w for (x, y), w in zip((domain(*SPECS[s[0]]), domain(*SPECS[s[1]])), (.3, .8)))])
        for u in us:
            for fails in (False, True):
                def more(I, st, name, info, a):
                    if info['name'] == 'find_closest_parameter': return [(st, adt(RES, 'Err', ('0',), (arg('E'),)) if fails else ok(cf(u) if curve else tup(*map(cf, u))))]
                def test(r, e):
                    x = ok_of(r)
                    if fails: return None if x is None else '' if x == 'err' else 'is a point although the search failed'
                    if x is None or x == 'err': return None if x is None else 'gives an error'
                    try: got = values(x, e)
                    except Unknown: return None
                    want = point(spec, profile(spec, 4)(e), u) if curve else derivs(s, e, *u)[0, 0]
                    return '' if near(got, want) else 'is not the point at the parameter found'
                verdicts(ctx, 'point', 'closest point on %s%s' % ('a curve' if curve else 'a surface', ', search fails' if fails else ''), f, [me, arr(symbols('t', 3))], 4, [env], test, more=more)

def impl1(ctx, nm, ty):
    fs = [g for g in ctx.m.fns.values() if g.name == nm and (g.self_adt() or '').split('::')[-1] == ty and g.blocks]
    return fs[0] if len(fs) == 1 else ctx.anchor_missing('%s of %s' % (nm, ty))
def plain(t):
    while t.k == 'adt' and len(t.a[3]) == 1 and t.a[1] not in ('Ok', 'Err', 'Some'): t = t.a[3][0]
    return t
def slopes(ctx):
    g, h = [impl1(ctx, nm, 'CurveClosestParameterProblem') for nm in ('gradient', 'hessian')]
    if not g or not h: return
    for k, spec in enumerate(CURVES[:3]):
        lo, hi = domain(*spec)
        pb = build(ctx.m, 'CurveClosestParameterProblem', {'point': arr(symbols('t', 2)), 'curve': ncurve(ctx.m, spec, 'P', 3)})
        if pb is None: ctx.skip('slope', label(spec, k), 'fields changed'); continue
        for j, w in enumerate((0., .3, .77, 1.)):
            u = lo + (hi - lo) * w
            env = dict(penv(spec, 3, {}, 50 + j), t0=1.3, t1=-.8)
            S = [[sum(float(c) * (env[x] if x else 1.) for x, c in f.items()) for f in fs] for fs in rational(spec, u, 3, 2)]
            d = axpy((1, S[0]), (-1, [env['t0'], env['t1']]))
            G, H = dot(S[1], d), dot(S[2], d) + dot(S[1], S[1])
            got = []
            for nm, f in (('gradient', g), ('hessian', h)):
                outs = summary(ctx, f, [pb, cf(u)], 3, case=Witness(env))
                rs = [ok_of(r) for fs, _, r in outs or [] if holds(fs, env)]
                try: got.append(num(rs[0], env) if len(rs) == 1 and rs[0] is not None and rs[0] != 'err' else None)
                except Unknown: got.append(None)
            inst = 'slope and curvature at %g of %s' % (u, label(spec, k))
            if None in got: ctx.skip('slope', inst, 'not interpreted'); continue
            good = abs(got[0] * H - got[1] * G) <= 1e-6 * (abs(G * H) + 1) and (got[0] * G > 0 or abs(G) < 1e-9)
            ctx.ob('slope', inst, good, g.span, '%s are %g and %g instead of %g and %g' % (inst, got[0], got[1], G, H)); ctx.count('slopes')

def stepper(env, u, gr, he, cost, old):
    def more(I, st, name, info, a):
        nm = info['name']
        v = [I.value(st, x) for x in a]
        prob = bool(v) and v[0].k == 'arg' and v[0].a[0] == 'PROBLEM'
        if prob and nm == 'gradient': return [(st, ok(gr))]
        if prob and nm == 'hessian': return [(st, ok(he))]
        if prob and nm == 'cost': return [(st, ok(cost))]
        state = bool(v) and (v[0].k == 'arg' and v[0].a[0] == 'STATE' or v[0].k == 'call' and v[0].a[0] == 'state')
        if state and nm == 'get_param': return [(st, some(u))]
        if state and nm in ('get_cost', 'get_best_cost'): return [(st, old)]
        if state and nm in ('param', 'cost', 'gradient', 'hessian') and len(v) == 2:
            d = dict(zip(('param', 'cost'), v[0].a[1])) if v[0].k == 'call' else {'param': UNIT, 'cost': UNIT}
            d[nm] = v[1]
            return [(st, mk('call', 'state', (d['param'], d['cost'])))]
        if nm == 'new' and 'Matrix' in name and len(v) == 4: return [(st, arr(v))]
        if nm in ('lu', 'cholesky', 'qr', 'full_piv_lu') and v[0].k == 'arr' and len(v[0].a[0]) == 4: return [(st, mk('call', 'LU', (v[0],)))]
        if nm == 'solve' and len(v) == 2 and v[0].k == 'call' and v[0].a[0] == 'LU' and vec2(v[1]):
            try: M, r = values(v[0].a[1][0], env), values(v[1], env)
            except Unknown: return None
            det = M[0] * M[3] - M[1] * M[2]
            return [(st, some(arr([cf((r[0] * M[3] - M[1] * r[1]) / det), cf((M[0] * r[1] - M[2] * r[0]) / det)])) if det else NONE)]
        return None
    return more
def stepped(r):
    r = ok_of(r)
    if r is None or r == 'err': return r
    if r.k == 'tup': r = r.a[0][0]
    if r.k == 'arg' and r.a[0] == 'STATE': return UNIT, UNIT
    return r.a[1] if r.k == 'call' and r.a[0] == 'state' else None
def solver_value(ctx, ty, args):
    """the solver as its constructor makes it"""
    f = impl1(ctx, 'new', ty)
    outs = summary(ctx, f, args) if f else None
    return outs[0][2] if outs and len(outs) == 1 else None
def steps(ctx):
    f = impl1(ctx, 'next_iter', 'CurveClosestParameterNewton')
    me = solver_value(ctx, 'CurveClosestParameterNewton', [tup(cf(-100.), cf(100.)), FALSE])
    if f and me is not None:
        for g, h, u in ((.5, 2., .3), (-1.2, 4., .3), (.3, .5, -2.), (0., 1., .7), (2., 5., 1.)):
            def test(r, e):
                s = stepped(r)
                if s is None or s == 'err': return None if s is None else 'gives an error'
                try: x = u if s[0] is UNIT else num(plain(s[0]), e)
                except Unknown: return None
                k = 1. if g == 0 and abs(x - u) < 1e-12 else (u - x) / (g / h) if g else 0.
                return '' if 1e-3 < k <= 1 + 1e-9 else 'goes from %g to %g with slope %g and curvature %g' % (u, x, g, h)
            env = {'g': g, 'h': h, 'u': u}
            verdicts(ctx, 'step', 'step of the curve solver, slope %g' % g, f, [me, arg('PROBLEM'), arg('STATE')], 3, [env], test, more=stepper(env, arg('u'), arg('g'), arg('h'), cf(1.), cf(2.)))
    elif f: ctx.skip('step', 'curve solver', 'constructor not interpreted')
    ty = 'SurfaceClosestParameterNewton'
    f, gi, hi, ci_, init = [impl1(ctx, nm, t) for nm, t in (('next_iter', ty), ('gradient', 'SurfaceClosestParameterProblem'), ('hessian', 'SurfaceClosestParameterProblem'), ('cost', 'SurfaceClosestParameterProblem'), ('init', ty))]
    if not all((f, gi, hi, ci_, init)): return
    for k, s in enumerate(SURF):
        (ul, uh), (vl, vh) = domain(*SPECS[s[0]]), domain(*SPECS[s[1]])
        big = lambda a, b: tup(cf(a - 1e3), cf(b + 1e3))
        me = solver_value(ctx, ty, [tup(big(ul, uh), big(vl, vh)), tup(FALSE, FALSE)])
        pb = build(ctx.m, 'SurfaceClosestParameterProblem', {'point': arr(symbols('t', 3)), 'surface': nsurf(ctx.m, *s)})
        if me is None or pb is None: ctx.skip('step', 'surface solver', 'fields changed'); continue
        for j, (x, y) in enumerate(((.3, .4), (.5, .5), (.8, .15))):
            u, v = ul + (uh - ul) * x, vl + (vh - vl) * y
            env = surf_env(s, 20 + j)
            S = derivs(s, env, u, v)
            env.update({'t%d' % i: c + d for i, (c, d) in enumerate(zip(S[0, 0], (.21, -.17, .3)))})
            dif = axpy((1, S[0, 0]), (-1, [env['t%d' % i] for i in range(3)]))
            uv, got = arr([cf(u), cf(v)]), []
            for g in (gi, hi, ci_):
                outs = summary(ctx, g, [pb, uv], 4, case=Witness(env))
                rs = [ok_of(r) for fs, _, r in outs or [] if holds(fs, env)]
                got.append(rs[0] if len(rs) == 1 and rs[0] != 'err' else None)
            inst = 'surface #%d at (%.3g, %.3g)' % (k, u, v)
            if None in got: ctx.skip('step', inst, 'slope of the surface not interpreted'); continue
            try: c = num(plain(got[2]), env)
            except Unknown: c = None
            if c is None: ctx.skip('slope', 'cost on ' + inst, show(got[2], 3))
            else: ctx.ob('slope', 'cost on ' + inst, min(abs(c - nrm(dif) * z) for z in (1., nrm(dif), nrm(dif) / 2)) < 1e-6, ci_.span, 'the cost on %s is %g where the distance is %g' % (inst, c, nrm(dif))); ctx.count('slopes')
            grad = [dot(S[1, 0], dif), dot(S[0, 1], dif)]
            a, b, d = dot(S[1, 0], S[1, 0]) + dot(S[2, 0], dif), dot(S[1, 0], S[0, 1]) + dot(S[1, 1], dif), dot(S[0, 1], S[0, 1]) + dot(S[0, 2], dif)
            det = a * d - b * b
            if not (a > 1e-6 and d > 1e-6 and det > 1e-6): ctx.skip('step', inst, 'saddle'); continue
            newton = [-(grad[0] * d - b * grad[1]) / det, -(a * grad[1] - b * grad[0]) / det]
            for word, cost in (('nearer', .5), ('farther', 2.)):
                def test(r, e):
                    st = stepped(r)
                    if st is None or st == 'err': return None if st is None else 'gives an error'
                    try:
                        to = [u, v] if st[0] is UNIT else values(st[0], e)
                        c = None if st[1] is UNIT else num(plain(st[1]), e)
                    except Unknown: return None
                    mv = [to[0] - u, to[1] - v]
                    if word == 'farther': return '' if nrm(mv) < 1e-9 and c in (None, 1.) else 'is taken to a point farther away'
                    z = dot(mv, newton) / dot(newton, newton)
                    if not 1e-3 < z <= 1 + 1e-9 or nrm(axpy((1, mv), (-z, newton))) > 1e-6 * nrm(newton): return 'goes by (%g, %g) instead of along (%g, %g)' % (*mv, *newton)
                    return '' if c == .5 else 'does not keep the distance of the new point'
                verdicts(ctx, 'step', 'step to a %s point on %s' % (word, inst), f, [me, arg('PROBLEM'), arg('STATE')], 4, [env], test, more=stepper(env, uv, got[0], got[1], cf(cost), cf(1.)))
            def first(r, e):
                st = stepped(r)
                if st is None or st == 'err': return None
                return '' if st[1] is not UNIT and numeric(st[1]) == .75 else 'does not record the distance it starts with'
            verdicts(ctx, 'step', 'start of the solver on ' + inst, init, [me, arg('PROBLEM'), arg('STATE')], 4, [env], first, more=stepper(env, uv, got[0], got[1], cf(.75), cf(math.inf)))
