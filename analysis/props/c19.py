"""C19 weights are handled homogeneously: symbolic weighted coordinates and weights; every Cartesian answer is compared with coordinate / weight and every
stored control point with coordinate * weight, by identity testing along the paths that assignments of the symbols take."""
from termlab import *

def check(ctx):
    ctx.rule('read', 'queries for Cartesian control points, weights, bounds and degree-one polylines divide each coordinate by its own weight')
    ctx.rule('closed', 'a curve is closed exactly when its two ends are the same Cartesian point, whatever the weights')
    ctx.rule('stored', 'surfaces swept from a profile and trimming curves mapped onto a surface keep the weights and store coordinates times weight')
    ctx.rule('point', 'a point of a curve or surface is the quotient of the weighted sums')
    ctx.assumptions.append('real arithmetic, compared at random assignments of the symbols (identity testing) within 1e-7; weights are positive')
    reads(ctx); closed(ctx); stored(ctx); points(ctx)

SP = [(1, [0, 0, 1, 1]), (1, [0, 0, 2, 3, 3]), (2, [0, 0, 0, 1, 3, 3, 3]), (2, [0, 1, 2, 3, 4, 5, 6])]
def count_(spec): return len(spec[1]) - spec[0] - 1
def wpoint(tag, dim): return arr(symbols('%s_' % tag, dim))
def wcurve(m, spec, dim, tag='P'):
    p, ks = spec
    K = knots(m, ks)
    return None if K is None else curve(m, p, ks, [wpoint('%s%d' % (tag, i), dim) for i in range(count_(spec))])
def wenv(n, dim, seed, tag='P', more=None):
    r = random.Random(seed)
    e = assign(more or {}, seed + 50)
    for i in range(n):
        w = r.uniform(.3, 2.5)
        for c in range(dim - 1): e['%s%d_%d' % (tag, i, c)] = r.uniform(-3, 3) * w
        e['%s%d_%d' % (tag, i, dim - 1)] = w
    return e
def hpoints(env, n, dim, tag='P'): return [[env['%s%d_%d' % (tag, i, c)] for c in range(dim)] for i in range(n)]
def cart(h): return [x / h[-1] for x in h[:-1]]
def listcheck(want, what):
    def test(r, env):
        try: v = values(r, env)
        except Unknown: return None
        if not isinstance(v, list): return None
        w = want(env)
        flat = lambda x: [z for y in x for z in flat(y)] if isinstance(x, list) else [x]
        return '' if len(v) == len(w) and near(flat(v), flat(w)) else 'differ from %s' % what
    return test
def wsurf(m, a, b, dim):
    (p, ku), (q, kv) = a, b
    U, V = knots(m, ku), knots(m, kv)
    return None if U is None else build(m, 'NurbsSurface', {'u_degree': ci(p), 'v_degree': ci(q), 'u_knots': U, 'v_knots': V,
        'control_points': arr([arr([wpoint('P%d' % (i * count_(b) + j), dim) for j in range(count_(b))]) for i in range(count_(a))])})
def boxof(t, env):
    if t is None or t.k != 'adt' or not {'min', 'max'} <= set(t.a[2]): return None
    try: return values(fld(t, 'min'), env), values(fld(t, 'max'), env)
    except Unknown: return None
def carted(I, st, name, info, a):
    """the dimension of a box is one less than that of its object, so the division is done here (it is asked for separately)"""
    if info['name'] == 'dehomogenize' and len(a) == 1:
        v = vecof(I.value(st, a[0]))
        if v is not None: return [(st, some(arr([op('Div', x, v[-1]) for x in v[:-1]])))]
def boxtest(n, dim):
    def test(r, env):
        b = boxof(r, env)
        if b is None: return None
        ps = [cart(h) for h in hpoints(env, n, dim)]
        want = [f(p[c] for p in ps) for f in (min, max) for c in range(dim - 1)]
        return '' if near(b[0] + b[1], want) else 'is not the box of the Cartesian control points'
    return test

def reads(ctx):
    m = ctx.m
    f, w, d = [public(ctx, 'NurbsCurve', x) for x in ('dehomogenized_control_points', 'weights', 'dehomogenize')]
    g = public(ctx, 'NurbsSurface', 'dehomogenized_control_points')
    fr = [x for x in m.fns.values() if x.name == 'from' and (x.self_adt() or '').endswith('::BoundingBox')]
    tess = [x for x in impls(ctx, 'tessellate', 'NurbsCurve')]
    free = [x for x in m.free('dehomogenize')]
    for dim in (3, 4):
        for k, spec in enumerate(SP):
            n = count_(spec)
            c = wcurve(m, spec, dim)
            envs = [wenv(n, dim, s) for s in (1, 2)]
            carts = lambda env: [cart(h) for h in hpoints(env, n, dim)]
            lab = '%s, %d coordinates' % (label(spec, k), dim)
            if f: verdicts(ctx, 'read', 'control points of a curve, ' + lab, f, [c], dim, envs, listcheck(carts, 'the coordinates divided by their weights'))
            if w: verdicts(ctx, 'read', 'weights of a curve, ' + lab, w, [c], dim, envs, listcheck(lambda env: [h[-1] for h in hpoints(env, n, dim)], 'the weights'))
            if d:
                def test(r, env):
                    if r.k != 'adt' or 'control_points' not in r.a[2]: return None
                    v = listcheck(carts, 'the coordinates divided by their weights')(fld(r, 'control_points'), env)
                    if v == '' and (numeric(fld(r, 'degree')) != spec[0] or values(fld(r, 'knots'), env) != [float(x) for x in spec[1]]): return 'has another degree or knots'
                    return v
                verdicts(ctx, 'read', 'Cartesian copy of a curve, ' + lab, d, [c], dim, envs, test)
            if spec[0] == 1:
                for h in tess: verdicts(ctx, 'read', 'polyline of a curve, ' + lab, h, [c, NONE], dim, envs, listcheck(carts, 'the Cartesian control points'))
        for h in free:
            c = wpoint('P0', dim)
            def test(r, env):
                v = ok_of(r) if r.k == 'adt' else None
                if r.k == 'adt' and r.a[1] == 'Some': v = r.a[3][0]
                return None if v in (None, 'err') else listcheck(lambda env: cart(hpoints(env, 1, dim)[0]), 'the coordinates divided by the weight')(v, env)
            verdicts(ctx, 'read', 'a Cartesian point of %d coordinates' % dim, h, [c], dim, [wenv(1, dim, s) for s in (1, 2)], test)
    for a, b in ((0, 1), (2, 0), (3, 2)):
        A, B = SP[a], SP[b]
        s = wsurf(m, A, B, 4)
        n = count_(A) * count_(B)
        envs = [wenv(n, 4, x) for x in (1, 2)]
        grid_ = lambda env: [[cart(h) for h in hpoints(env, n, 4)][i * count_(B):(i + 1) * count_(B)] for i in range(count_(A))]
        if g: verdicts(ctx, 'read', 'control points of a surface of %d x %d' % (count_(A), count_(B)), g, [s], 4, envs, listcheck(grid_, 'the coordinates divided by their weights'))
        for h in fr:
            if 'NurbsSurface' in kind(h): verdicts(ctx, 'read', 'box of a surface of %d x %d' % (count_(A), count_(B)), h, [s], 3, envs, boxtest(n, 4), more=carted)
    for h in fr:
        if 'CompoundCurve' in kind(h) or 'NurbsCurve' not in kind(h): continue
        for k, spec in enumerate(SP):
            verdicts(ctx, 'read', 'box of a curve, ' + label(spec, k), h, [wcurve(m, spec, 4)], 3, [wenv(count_(spec), 4, x) for x in (1, 2)], boxtest(count_(spec), 4), more=carted)
def kind(f): return str(f.lty(1))

def closed(ctx):
    m = ctx.m
    f = public(ctx, 'NurbsCurve', 'is_closed')
    if not f: return
    for dim in (3, 4):
        for k, spec in enumerate(SP[1:3] + [(3, [0, 0, 0, 0, 1, 1, 1, 1])]):
            n = count_(spec)
            envs = []
            for seed in (1, 2):
                e = wenv(n, dim, seed)
                a, b = 'P0_', 'P%d_' % (n - 1)
                shut, weighted = dict(e), dict(e)
                for c in range(dim - 1):
                    shut[b + str(c)] = e[a + str(c)] / e[a + str(dim - 1)] * e[b + str(dim - 1)]       # the same point under another weight
                    weighted[b + str(c)] = e[a + str(c)]                                               # the same stored coordinates under another weight
                envs += [(e, False), (shut, True), (weighted, False)]
            for j, (e, want) in enumerate(envs):
                def test(r, env):
                    try: return '' if bool(num(r, env)) == want else 'is %sreported closed' % ('not ' if want else '')
                    except Unknown: return None
                verdicts(ctx, 'closed', 'a curve whose ends are %s, %d coordinates, %s' % (('apart', 'the same point', 'apart with the same weighted coordinates')[j % 3], dim, label(spec, k)), f, [wcurve(m, spec, dim)], dim, [e], test)

def stored(ctx):
    m = ctx.m
    g, rv = public(ctx, 'NurbsSurface', 'extrude'), public(ctx, 'NurbsSurface', 'try_revolve')
    for k, spec in enumerate(SP):
        n = count_(spec)
        c = wcurve(m, spec, 4)
        def moved(r, env):
            s = surface_of(r, env)
            if s is None: return None
            H = hpoints(env, n, 4)
            T_ = vget(env, 'T', 3)
            for row, t in zip(s[2], ({3: (1, .5, 0), 2: (1, 0)}.get(len(s[2]), ()))):
                if not all(near(x, [a + t * v * h[-1] for a, v in zip(h[:-1], T_)] + [h[-1]]) for x, h in zip(row, H)): return 'does not store the moved profile with its weights'
            return ''
        if g: verdicts(ctx, 'stored', 'extrusion, ' + label(spec, k), g, [c, arr(symbols('T', 3))], 4, [wenv(n, 4, s, more={'T': 3}) for s in (1, 2)], moved)
        for theta in (1., 3., 4.5, math.tau):
            def turn(r, env):
                s = surface_of(ok_of(r), env)
                if s is None: return None
                H = hpoints(env, n, 4)
                for i, row in enumerate(s[2]):
                    for x, h in zip(row, H):
                        if i % 2 == 0 and abs(x[-1] - h[-1]) > 1e-9: return 'changes the weights of the profile'
                        if i == 0 and not near(x, h): return 'does not start at the profile'
                        q = math.cos(theta / (len(s[2]) - 1))
                        if i % 2 == 1 and abs(x[-1] - h[-1] * q) > 1e-9: return 'has other weights between the turned profiles'
                return ''
            if rv: verdicts(ctx, 'stored', 'revolution by %.3g, %s' % (theta, label(spec, k)), rv, [c, arr(symbols('C', 3)), arr(symbols('A', 3)), cf(theta)], 4, [wenv(n, 4, s, more={'C': 3, 'A': 3}) for s in (1, 2)], turn)
    mapped(ctx)
UV = ((.3, -.2, .1), (.05, .4, -.6))
def uvterm(p, k): return total(mul(x, cf(c)) for x, c in zip(p, UV[k]))
def mapped(ctx):
    """closest point and intersection searches are replaced by a linear map from Cartesian points to parameters"""
    m = ctx.m
    cl, pr = public(ctx, 'TrimmedSurface', 'try_map_closest_point'), public(ctx, 'TrimmedSurface', 'try_projection')
    surf = wsurf(m, SP[0], SP[0], 4)
    def more(I, st, name, info, a):
        nm = info['name']
        if nm == 'find_closest_parameter' and len(a) == 2:
            p = vecof(I.value(st, a[1]))
            return None if p is None else [(st, ok(tup(uvterm(p, 0), uvterm(p, 1))))]
        if nm in ('into', 'from') and len(a) == 1:
            v = I.value(st, a[0])
            if v.k == 'adt' and 'control_points' in v.a[2]: return [(st, mk('call', 'box', (ci(len(v.a[2])),)))]
        if nm in ('size', 'center') and len(a) == 1: return [(st, arr([cf(2.), cf(1.), cf(3.)]))]
        if nm == 'find_intersections' and len(a) == 3:
            ray = I.value(st, a[1])
            ps = [vecof(x) for x in fld(ray, 'control_points').a[0]]
            p = [fold('Add', x, d) for x, d in zip(ps[0][:3], symbols('D', 3))]
            hits = []
            for t, near_ in ((2., False), (.5, True), (5., False)):
                q = arr([fold('Add', x, mul(cf(t), d)) for x, d in zip(p, symbols('D', 3))])
                uv = tup(uvterm(p, 0), uvterm(p, 1)) if near_ else tup(cf(77.), cf(78.))
                h = build(m, 'Intersection', {'a': tup(q, uv), 'b': tup(q, cf(t))})
                if h is None: return None
                hits.append(h)
            return [(st, ok(arr(hits)))]
        return None
    for k, spec in enumerate(SP[1:]):
        n = count_(spec)
        c, c2 = wcurve(m, spec, 4, 'Q'), wcurve(m, spec, 4, 'R')
        def env(seed):
            e = wenv(4, 4, seed, more={'D': 3})
            e.update(wenv(n, 4, seed + 7, 'Q')); e.update(wenv(n, 4, seed + 8, 'R'))
            return e
        for ext in (False, True):
            def test(r, e):
                v = ok_of(r)
                if v == 'err': return 'gives an error'
                if v is None or v.k != 'adt': return None
                x, ins = fld(v, 'exterior'), fld(v, 'interiors')
                cs = ([('Q', x.a[3][0])] if x.k == 'adt' and x.a[1] == 'Some' else []) + [('R', y) for y in (ins.a[0] if ins.k == 'arr' else ())]
                if len(cs) != 1 + ext: return 'loses a trimming curve'
                for tag, y in cs:
                    q = curve_of(y, e)
                    if q is None: return None
                    want = [[sum(a * b for a, b in zip(cart(h), UV[j])) * h[-1] for j in (0, 1)] + [h[-1]] for h in hpoints(e, n, 4, tag)]
                    if q[0] != spec[0] or not near(q[1], spec[1]): return 'changes the degree or knots of a trimming curve'
                    if len(q[2]) != len(want) or not all(near(a, b) for a, b in zip(q[2], want)): return 'does not store the parameters times the weight of each control point'
                return ''
            for f, args, nm in ((cl, [surf, some(c) if ext else NONE, arr([c2])], 'trimming by closest points'), (pr, [surf, arr(symbols('D', 3)), some(c) if ext else NONE, arr([c2])], 'trimming by projection')):
                if f: verdicts(ctx, 'stored', '%s, %s%s' % (nm, label(spec, k), ', with an exterior' if ext else ''), f, args, 4, [env(s) for s in (1, 2)], test, more=more)
def points(ctx):
    m = ctx.m
    f, g = public(ctx, 'NurbsCurve', 'point_at'), public(ctx, 'NurbsSurface', 'point_at')
    for dim in (3, 4):
        for k, spec in enumerate(SP):
            n = count_(spec)
            lo, hi = domain(*spec)
            for u in (lo, lo + .37 * (hi - lo), hi):
                def test(r, env):
                    try: v = values(r, env)
                    except Unknown: return None
                    return '' if near(v, point(spec, hpoints(env, n, dim), u)) else 'is not the quotient of the weighted sums at %g' % u
                if f: verdicts(ctx, 'point', 'point of a curve, %s, %d coordinates' % (label(spec, k), dim), f, [wcurve(m, spec, dim), cf(u)], dim, [wenv(n, dim, s) for s in (1, 2)], test)
    for a, b in ((0, 1), (2, 0), (3, 2)):
        A, B = SP[a], SP[b]
        n, nv = count_(A) * count_(B), count_(B)
        (la, ha), (lb, hb) = domain(*A), domain(*B)
        for u, v in ((la, hb), (la + .3 * (ha - la), lb + .8 * (hb - lb)), (ha, lb)):
            def test(r, env):
                try: x = values(r, env)
                except Unknown: return None
                H = hpoints(env, n, 4)
                return '' if near(x, spoint((A, B, [H[i * nv:(i + 1) * nv] for i in range(count_(A))]), u, v)) else 'is not the quotient of the weighted sums at (%g, %g)' % (u, v)
            if g: verdicts(ctx, 'point', 'point of a surface of %d x %d' % (count_(A), nv), g, [wsurf(m, A, B, 4), cf(u), cf(v)], 4, [wenv(n, 4, s) for s in (1, 2)], test)
