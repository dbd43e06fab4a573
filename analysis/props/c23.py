"""C23 primitive shapes are exact: the constructors are interpreted with symbolic centres, axes, points and profiles and constant angles; the resulting
control points and knots are terms, compared with the shape by identity testing, with more parameters per span than the degree."""
from termlab import *
from refinelab import ok_of

def check(ctx):
    ctx.rule('arc', 'circles, ellipses and their arcs lie on the ellipse, start and end at their angles, and are parametrised by the angle at every knot')
    ctx.rule('polyline', 'a polyline visits its points in order, parametrised by the length (scaled to the total length on request)')
    ctx.rule('periodic', 'a periodic curve repeats its first points over uniform knots')
    ctx.rule('plane', 'a plane is the centre plus the axes scaled from -1 to 1')
    ctx.rule('extrude', 'an extrusion is the profile moved along the translation, from all of it to none')
    ctx.rule('revolve', 'a surface of revolution is the profile turned around the axis, from no turn to the whole angle')
    ctx.rule('sphere', 'every point of a sphere has the radius as its distance from the centre; its poles lie on the axis')
    ctx.assumptions.append('real arithmetic, compared at random assignments of the symbols (identity testing) within 1e-7')
    arcs(ctx); polylines(ctx); planes(ctx); revolutions(ctx)

ANGLES = [(0., math.tau), (0., math.pi), (0., math.pi / 2), (.3, 1.), (-1., 2.), (.7, 5.9), (-4., .5), (1., 1. + 1.5 * math.pi), (2., 2.01), (-.5, math.tau - .75)]
def on_ellipse(c, C, X, Y, a, b):
    """'' when the curve runs along C + X cos t + Y sin t from a to b"""
    d = bad(c)
    if d: return d
    p, ks, cp = c
    lo, hi = domain(p, ks)
    if not near([lo, hi], [a, b]): return 'has domain %g..%g' % (lo, hi)
    n = len(C)
    def angle(q):
        v = axpy((1, q), (-1, C))
        xx, xy, yy, vx, vy = [sum(s * t for s, t in zip(*z)) for z in ((X, X), (X, Y), (Y, Y), (v, X), (v, Y))]
        det = xx * yy - xy * xy
        al, be = (vx * yy - vy * xy) / det, (vy * xx - vx * xy) / det
        res = nrm(axpy((1, v), (-al, X), (-be, Y)))
        return al, be, res
    last = None
    for x, y in spans(p, ks):
        us = [x] + within(x, y, 2 * p + 1) + [y]
        for u in us:
            q = point((p, ks), cp, u)
            al, be, res = angle(q)
            if res > 1e-6 or abs(al * al + be * be - 1) > 1e-6: return 'leaves the ellipse at %g' % u
            if u in (x, y) and not near([al, be], [math.cos(u), math.sin(u)], 1e-6): return 'is at another angle than %g there' % u
            if u not in (x, y):
                t = math.atan2(be, al)
                t += math.tau * round((u - t) / math.tau)
                if not x < t < y or last is not None and last >= t: return 'does not run from %g to %g' % (x, y)
                last = t
        last = None
    return ''
def arcs(ctx):
    m = ctx.m
    ci_, el, ar, ea = [public(ctx, 'NurbsCurve', n) for n in ('try_circle', 'try_ellipse', 'try_arc', 'try_ellipse_arc')]
    for n in (2, 3):
        C, X, Y = [arr(symbols(t, n)) for t in 'CXY']
        R = arg('R0')
        envs = [assign({'C': n, 'X': n, 'Y': n, 'R': [r]}, s) for s, r in ((1, 2.5), (2, .4), (3, 7.))]
        unit = lambda env, t: [x / nrm(vget(env, t, n)) * env['R0'] for x in vget(env, t, n)]
        def run(rule, inst, f, args, a, b, scaled):
            def test(r, env):
                v = ok_of(r)
                c = curve_of(v, env)
                if c is None: return 'gives an error' if v == 'err' else None
                x, y = (unit(env, 'X'), unit(env, 'Y')) if scaled else (vget(env, 'X', n), vget(env, 'Y', n))
                return on_ellipse(c, vget(env, 'C', n), x, y, a, b)
            if f: verdicts(ctx, rule, inst, f, args, n + 1, envs, test)
        run('arc', 'circle in %d dimensions' % n, ci_, [C, X, Y, R], 0., math.tau, True)
        run('arc', 'ellipse in %d dimensions' % n, el, [C, X, Y], 0., math.tau, False)
        for a, b in ANGLES:
            run('arc', 'arc from %.3g to %.3g in %d dimensions' % (a, b, n), ar, [C, X, Y, R, cf(a), cf(b)], a, b, True)
            run('arc', 'elliptic arc from %.3g to %.3g in %d dimensions' % (a, b, n), ea, [C, X, Y, cf(a), cf(b)], a, b, False)
def polylines(ctx):
    f, g = public(ctx, 'NurbsCurve', 'polyline'), public(ctx, 'NurbsCurve', 'try_periodic')
    for dim in (2, 3):
        for k in (2, 3, 5):
            pts = arr([arr(symbols('P%d_' % i, dim)) for i in range(k)])
            envs = [assign({'P%d_' % i: dim for i in range(k)}, s) for s in (5, 6)]
            for norm_ in (False, True):
                def test(r, env):
                    c = curve_of(r, env)
                    if c is None: return None
                    d = bad(c)
                    if d: return d
                    P = [vget(env, 'P%d_' % i, dim) for i in range(k)]
                    acc = [0.]
                    for x, y in zip(P, P[1:]): acc.append(acc[-1] + nrm(axpy((1, x), (-1, y))))
                    if norm_: acc = [x / acc[-1] for x in acc]
                    if not near(list(domain(*c[:2])), [acc[0], acc[-1]]): return 'has domain %g..%g' % domain(*c[:2])
                    for i in range(k - 1):
                        for t in (0, .3, .6, 1):
                            if not near(point(c[:2], c[2], min(acc[i] + (acc[i + 1] - acc[i]) * t, domain(*c[:2])[1])), axpy((1 - t, P[i]), (t, P[i + 1]))): return 'leaves the segment %d' % i
                    return ''
                if f: verdicts(ctx, 'polyline', 'polyline of %d points in %d dimensions%s' % (k, dim, ', scaled' if norm_ else ''), f, [pts, TRUE if norm_ else FALSE], dim + 1, envs, test)
        for p, k in ((1, 2), (2, 3), (2, 5), (3, 4), (3, 6)):
            pts = arr([arr(symbols('P%d_' % i, dim)) for i in range(k)])
            envs = [assign({'P%d_' % i: dim for i in range(k)}, s) for s in (5, 6)]
            def test(r, env):
                v = ok_of(r)
                c = curve_of(v, env)
                if c is None: return 'gives an error' if v == 'err' else None
                d = bad(c)
                if d: return d
                q, ks, cp = c
                w = ks[1] - ks[0]
                if q != p or len(cp) != k + p or not near([y - x for x, y in zip(ks, ks[1:])], [w] * (len(ks) - 1)): return 'is not uniform of degree %d over the points' % p
                for i, x in enumerate(cp):
                    if not near(x, vget(env, 'P%d_' % (i % k), dim) + [1.]): return 'has another control point %d' % i
                return ''
            if g: verdicts(ctx, 'periodic', 'periodic curve of degree %d over %d points in %d dimensions' % (p, k, dim), g, [pts, ci(p)], dim + 1, envs, test)
def planes(ctx):
    f, g = public(ctx, 'NurbsSurface', 'plane'), public(ctx, 'NurbsSurface', 'extrude')
    m = ctx.m
    C, X, Y = [arr(symbols(t, 3)) for t in 'CXY']
    def test(r, env):
        s = surface_of(r, env)
        if s is None: return None
        d = sbad(s)
        if d: return d
        (a, b), (c, e) = domain(*s[0]), domain(*s[1])
        us, vs = grid(s)
        for u in us:
            for v in vs:
                if not near(spoint(s, u, v), axpy((1, vget(env, 'C', 3)), (2 * (u - a) / (b - a) - 1, vget(env, 'X', 3)), (2 * (v - c) / (e - c) - 1, vget(env, 'Y', 3)))): return 'leaves the plane at (%g, %g)' % (u, v)
        return ''
    if f: verdicts(ctx, 'plane', 'plane', f, [C, X, Y], 4, [assign({'C': 3, 'X': 3, 'Y': 3}, s) for s in (1, 2)], test)
    for k, spec in enumerate(SPECS):
        c = ncurve(m, spec, 'P', 4)
        if c is None or not g: continue
        cps = profile(spec, 4)
        def test(r, env):
            s = surface_of(r, env)
            if s is None: return None
            d = sbad(s)
            if d: return d
            if not near(list(domain(*s[1])), list(domain(*spec))): return 'has another domain along the profile'
            (a, b) = domain(*s[0])
            us, vs = grid(s)
            for v in vs:
                q = point(spec, cps(env), v)
                for u in us:
                    if not near(spoint(s, u, v), axpy((1, q), (1 - (u - a) / (b - a), vget(env, 'T', 3)))): return 'leaves the moved profile at (%g, %g)' % (u, v)
            return ''
        verdicts(ctx, 'extrude', 'extrusion of a profile, ' + label(spec, k), g, [c, arr(symbols('T', 3))], 4, [penv(spec, 4, {'T': 3}, s) for s in (1, 2)], test)
def turned(q, C, A, t):
    a = [x / nrm(A) for x in A]
    v = axpy((1, q), (-1, C))
    d = sum(x * y for x, y in zip(a, v))
    w = [a[1] * v[2] - a[2] * v[1], a[2] * v[0] - a[0] * v[2], a[0] * v[1] - a[1] * v[0]]
    return axpy((1, C), (math.cos(t), v), (math.sin(t), w), (d * (1 - math.cos(t)), a))
def revolved(s, C, A, theta, prof, pdom):
    """'' when the surface is the profile (a function of v) turned around the axis"""
    d = sbad(s)
    if d: return d
    (a, b) = domain(*s[0])
    if not near(list(domain(*s[1])), list(pdom)): return 'has another domain along the profile'
    n = nrm(A)
    us, vs = grid(s, 3)
    knots_ = {x for sp in spans(*s[0]) for x in sp}
    for v in vs:
        q = prof(v)
        h = sum(x * y / n for x, y in zip(A, axpy((1, q), (-1, C))))
        foot = axpy((1, C), (h / n, A))
        e1 = axpy((1, q), (-1, foot))
        rad, last = nrm(e1), None
        e2 = axpy((1, turned(q, C, A, math.pi / 2)), (-1, foot))
        for u in us:
            x = spoint(s, u, v)
            if u in knots_:
                want = turned(q, C, A, theta * (u - a) / (b - a))
                if not near(x, want, 1e-6): return 'is off the turned profile at (%g, %g)' % (u, v)
            y = axpy((1, x), (-1, foot))
            if abs(nrm(y) - rad) > 1e-6 * max(1., rad) or abs(sum(i * j for i, j in zip(y, A))) / n > 1e-6: return 'leaves the circle of the profile at (%g, %g)' % (u, v)
            if rad > 1e-6:
                t = math.atan2(sum(i * j for i, j in zip(y, e2)), sum(i * j for i, j in zip(y, e1)))
                w = theta * (u - a) / (b - a)
                t += math.tau * round((w - t) / math.tau)
                if last is not None and t <= last: return 'turns back at (%g, %g)' % (u, v)
                last = t
    return ''
def revolutions(ctx):
    m = ctx.m
    f, g = public(ctx, 'NurbsSurface', 'try_revolve'), public(ctx, 'NurbsSurface', 'try_sphere')
    C, A = arr(symbols('C', 3)), arr(symbols('A', 3))
    for k in (0, 2, 3):
        spec = SPECS[k]
        c = ncurve(m, spec, 'P', 4)
        if c is None or not f: continue
        cps = profile(spec, 4)
        for theta in (.5, math.pi / 2, 2., math.pi, 4., 3 * math.pi / 2, 5.5, math.tau):
            envs = [penv(spec, 4, {'C': 3, 'A': 3}, s) for s in (1, 2)]
            e = penv(spec, 4, {'C': [0., 0., 1.], 'A': [0., 0., 2.]}, 3)       # a control point on the axis
            e['P0_0'] = e['P0_1'] = 0.
            envs.append(e)
            def test(r, env):
                v = ok_of(r)
                s = surface_of(v, env)
                if s is None: return 'gives an error' if v == 'err' else None
                return revolved(s, vget(env, 'C', 3), vget(env, 'A', 3), theta, lambda v: point(spec, cps(env), v), domain(*spec))
            verdicts(ctx, 'revolve', 'revolution by %.3g, %s' % (theta, label(spec, k)), f, [c, C, A, cf(theta)], 4, envs, test)
    if not g: return
    X, R = arr(symbols('X', 3)), arg('R0')
    envs = [assign({'C': 3, 'A': a, 'X': x, 'R': [r]}, 4) for a, x, r in (([0., 0., 1.], [1., 0., 0.], 2.), ([0., 3., 0.], [0., 0., .5], .7), ([1., 1., 0.], [1., -1., 2.], 3.))]
    def test(r, env):
        v = ok_of(r)
        s = surface_of(v, env)
        if s is None: return 'gives an error' if v == 'err' else None
        d = sbad(s)
        if d: return d
        c, rad = vget(env, 'C', 3), env['R0']
        us, vs = grid(s, 3)
        for u in us:
            for w in vs:
                if abs(nrm(axpy((1, spoint(s, u, w)), (-1, c))) - rad) > 1e-6 * rad: return 'is not at the radius from the centre at (%g, %g)' % (u, w)
        a = [x / nrm(vget(env, 'A', 3)) * rad for x in vget(env, 'A', 3)]
        for sgn, w in ((-1, vs[0]), (1, vs[-1])):
            if not near(spoint(s, us[1], w), axpy((1, c), (sgn, a)), 1e-6): return 'has its poles off the axis'
        x = [x / nrm(vget(env, 'X', 3)) * rad for x in vget(env, 'X', 3)]
        full = turned(axpy((1, c), (1, x)), c, vget(env, 'A', 3), 0.)
        if not near(spoint(s, us[0], math.pi / 2 if vs[-1] > 3 else (vs[0] + vs[-1]) / 2), full, 1e-6): return 'does not start at the x axis'
        p, q = spoint(s, us[0], vs[1]), spoint(s, us[-1], vs[1])
        if not near(p, q, 1e-6): return 'is not closed around the axis'
        return ''
    verdicts(ctx, 'sphere', 'sphere', g, [C, A, X, R], 4, envs, test)
