"""C21 containment in closed outlines: decision tables.  The geometric queries (box, closest point, crossings of the ray, points of the
curve) are replaced by the case; the answer of the code is compared with the rule."""
from curvelab import *
from signs import *
import itertools

PT = arr([arg('px'), arg('py')])
Q = arr([arg('qx'), arg('qy')])
MD, DIST, G = arg('MIN_DISTANCE'), arg('DIST'), arg('g')

def check(ctx):
    ctx.rule('outline', 'a closed outline contains a point exactly when the point is in its box and is closer to it than the minimum distance or has an odd number of crossings on its ray; an open curve and a failing ray are errors')
    ctx.rule('ray', 'a piece of the curve is crossed by the ray to the right of the point exactly when its ends are on different sides of the ray (on the ray counts as above or below, always the same) and the place where it crosses is not left of the point; the direction of the piece does not matter')
    ctx.rule('closed', 'a curve or compound curve is closed exactly when its first and last points are closer than a small positive distance')
    ctx.assumptions.append('the closest point search and the evaluation are taken at their word; pieces whose two ends are left of the point and which bulge to its right are not decided')
    outline(ctx); ray(ctx); closed(ctx)

def impls(ctx, nm, ty): return [g for g in ctx.m.fns.values() if g.name == nm and (g.self_adt() or '').endswith('::' + ty)]
def solver_options(m):
    a = find_adt(m, 'CurveIntersectionSolverOptions')
    if a is None: return None
    names = [q['n'] for q in a['v'][0]['f']]
    if 'minimum_distance' not in names: return None
    return adt(a['path'], a['v'][0]['n'], names, [MD if n == 'minimum_distance' else ci(50) if n == 'max_iters' else ci(100) if n == 'knot_domain_division' else arg(n) for n in names])

class Flip(Case):
    pass

def explore(ctx, f, args, over, case, t=20):
    def inl(g): return True if g.span.startswith('src/contains') or g.name in ('spans', 'curve', 'size', 'pairs') or g.span.startswith('src/misc') else None
    def opq(g): return True if g.name in ('point_at', 'find_closest_point', 'find_closest_parameter', 'try_traverse', 'knots_domain', 'polyline') else None
    I = engine(ctx, inline=inl, opaque=opq)
    I.unroll, I.budget, I.t_end, I.exact, I.cap = 80, 200000, time.time() + t, True, 400
    def ov(I, st, name, info, a):
        nm = info['name']
        e = eps_over(nm, a)
        if e is not None: return [(st, e)]
        return over(I, st, nm, [I.value(st, x) for x in a], info)
    I.override = ov
    with deciding(case):
        try: return [(s.f, r) for s, r in I.auto(f, args)]
        except Budget: return None
def norm_over(st, nm, v):
    """lengths of differences of points: recorded as LEN of the difference"""
    if nm in ('norm', 'magnitude') and len(v) == 1: return [(st, mk('call', 'LEN', (v[0],)))]
    if nm in ('norm_squared', 'magnitude_squared') and len(v) == 1:
        t = mk('call', 'LEN', (v[0],)); return [(st, op('Mul', t, t))]
    if nm in ('distance', 'metric_distance') and len(v) == 2: return [(st, mk('call', 'LEN', (op('Sub', v[0], v[1]),)))]
    if nm == 'distance_squared' and len(v) == 2:
        t = mk('call', 'LEN', (op('Sub', v[0], v[1]),)); return [(st, op('Mul', t, t))]

GAP = {'closer': {MD: op('Add', DIST, G)}, 'farther': {DIST: op('Add', MD, G)}, 'failed': {}, 'far but closer': {DIST: cf(1e6), MD: cf(1e7)}, 'near but farther': {DIST: cf(1e-9), MD: cf(1e-10)}}
def comp(t, i):
    """coordinate i of a point formula"""
    if t.k == 'arr': return t.a[0][i]
    if t.k == 'op' and t.a[0] in ('Add', 'Sub'): return op(t.a[0], comp(t.a[1][0], i), comp(t.a[1][1], i))
    if t.k == 'op' and t.a[0] == 'Neg': return op('Sub', cf(0), comp(t.a[1][0], i))
    if t.k == 'op' and t.a[0] in ('Mul', 'Div'):
        a, b = t.a[1]
        return op(t.a[0], comp(a, i) if a.k == 'arr' else a, comp(b, i) if b.k == 'arr' else b)
    if t.k == 'lin':
        r = None
        for x, c in t.a[0]:
            y = comp(x, i)
            y = y if c == 1 else op('Mul', cf(float(c)), y)
            r = y if r is None else op('Add', r, y)
        return r
    return elem(t, ci(i))

def outline(ctx):
    m = ctx.m
    opts = solver_options(m)
    if opts is None: return ctx.skip('outline', 'options', 'fields changed')
    for ty in ('NurbsCurve', 'CompoundCurve'):
        fs = impls(ctx, 'contains', ty)
        if len(fs) != 1: ctx.anchor_missing('Contains for ' + ty); continue
        f = fs[0]
        n = 1 if ty == 'NurbsCurve' else 3
        S = [arg('C%d' % i) for i in range(n)]
        me = arg('CURVE') if n == 1 else build(m, 'CompoundCurve', {'spans': arr(S)})
        if me is None: ctx.skip('outline', ty, 'fields changed'); continue
        counts = [(0,), (1,), (2,), (3,), (4,), (5,)] if n == 1 else [(0, 0, 0), (1, 0, 0), (0, 0, 1), (1, 1, 0), (0, 1, 1), (1, 1, 1), (2, 1, 0), (1, 2, 1), (2, 0, 2), (0, 3, 0), (3, 3, 1)]
        for cl, box, near, cnt, given in itertools.product((True, False), (True, False), ('closer', 'farther', 'failed', 'far but closer', 'near but farther'), counts + ['error'], (True, False)):
            if cnt != 'error' and cnt not in counts[:2] and not (cl and box and near in ('farther', 'failed')): continue
            if not given and near not in ('farther', 'failed'): continue        # the default tolerance is not part of the property
            asked = []
            def over(I, st, nm, v, info):
                if nm == 'is_closed' and v: return [(st, TRUE if cl else FALSE)]
                if nm == 'into' and len(v) == 1 and v[0] is me: return [(st, arg('BOX'))]
                if nm == 'from' and len(v) == 1 and v[0] is me: return [(st, arg('BOX'))]
                if nm == 'contains' and len(v) == 2 and v[0] is arg('BOX'): return [(st, TRUE if box else FALSE)]
                if nm == 'size' and v and v[0] is arg('BOX'): return [(st, arr([arg('sx'), arg('sy')]))]
                if nm == 'find_closest_point' and len(v) == 2: return [(st, ok(Q) if near != 'failed' else adt(RES, 'Err', ('0',), (arg('E'),)))]
                r = norm_over(st, nm, v)
                if r is not None: return r
                if nm == 'x_ray_intersection' and len(v) == 4:
                    i = S.index(v[0]) if v[0] in S else 0 if v[0] is me else None
                    if i is None: return None
                    asked.append(v)
                    if cnt == 'error': return [(st, adt(RES, 'Err', ('0',), (arg('E'),)))] if i == n - 1 else [(st, ok(arr([])))]
                    return [(st, ok(arr([arr([arg('hx%d_%d' % (i, k)), arg('hy%d_%d' % (i, k))]) for k in range(cnt[i])])))]
            class C(Case):
                def reduce(self, t, d=12):
                    return Case.reduce(self, lens(t), d)
                def sign(self, t): return Case.sign(self, subst(lens(t), GAP[near]))
            def lens(t):
                ls = find(t, lambda x: x.k == 'call' and x.a[0] == 'LEN')
                return subst(t, {x: DIST for x in ls if is_gap(x.a[1][0])}) if ls else t
            def is_gap(x):
                r = set(roots(x))
                return {arg('px'), arg('py')} <= r and {arg('qx'), arg('qy')} <= r
            case = C([MD, DIST, G, arg('sx'), arg('sy')])
            if not given:
                class C2(C):
                    def sign(self, t): return Case.sign(self, subst(lens(t), {DIST: cf(1e9)}))
                case = C2([arg('sx'), arg('sy')])
            outs = explore(ctx, f, {f.arg_names.get(1): me, f.arg_names.get(2): PT, f.arg_names.get(3): some(opts) if given else NONE}, over, case)
            inst = '%s %s, point %s the box, boundary %s, crossings %s%s' % (ty, 'closed' if cl else 'open', 'in' if box else 'outside', near, cnt, '' if given else ' default options')
            if outs is None: ctx.skip('outline', inst, 'budget'); continue
            if not cl and ty == 'CompoundCurve': continue
            want = 'error' if not cl else False if not box else True if near.endswith('closer') else 'error' if cnt == 'error' else sum(cnt) % 2 == 1
            for fs_, r in outs:
                if is_adt(r, RES, 'Err'): got = 'error'
                elif is_adt(r, RES, 'Ok'): got = {TRUE: True, FALSE: False}.get(r.a[3][0])
                else: got = None
                if got is None or fs_: ctx.skip('outline', inst, (show(r, 4) + ' ' + showf(fs_, 3))[:110]); continue
                ctx.ob('outline', inst, got == want, f.span, '%s gives %s instead of %s' % (inst, got, want))
                for v in asked:
                    ctx.ob('outline', ty + ' ray point', v[1] is PT, f.span, 'the ray does not start at the point asked for')
                    o = v[3].a[3][0] if is_adt(v[3], OPT, 'Some') else v[3]
                    if given: ctx.ob('outline', ty + ' ray options', o is opts, f.span, 'the ray does not use the options given')
                ctx.count('outline cases')

T0, T1 = 2.0, 6.0
def ray(ctx):
    m = ctx.m
    fs = [g for g in m.fns.values() if g.name == 'x_ray_intersection']
    opts = solver_options(m)
    if len(fs) != 1 or opts is None: return ctx.skip('ray', 'ray', 'function not recognised')
    f = fs[0]
    names = [f.arg_names.get(i) for i in range(1, f.nargs + 1)]
    if f.nargs != 4: return ctx.skip('ray', 'ray', 'arguments changed')
    tys = {'curve': arg('CURVE'), 'point': PT}
    a = dict(zip(names, (arg('CURVE'), PT, arg('LENGTH'), some(opts))))
    tree = find_adt(m, 'CurveBoundingBoxTree')
    D = lambda s, n: {0: ci(0)}
    def at(c, s, d): return c if s == 0 else op('Add' if s > 0 else 'Sub', c, d)
    built = []
    def go(hits, pieces, sep):
        """pieces: [(name, (xs, ys) at start, at end, [(ys of successive inner points, xs)])]"""
        pos = [MD, G, arg('far'), arg('LENGTH')]
        evals = {}
        def over(I, st, nm, v, info):
            if nm in ('x', 'y', 'x_axis', 'y_axis') and not v: return [(st, arr([cf(1), cf(0)] if nm[0] == 'x' else [cf(0), cf(1)]))]
            if nm == 'polyline' and v: built.append(v[0]); return [(st, arg('RAY'))]
            if nm == 'try_traverse': return [(st, ok(arg('TRAVERSED')))]
            if nm in ('pairs', 'into_pairs', 'pairs_iter', 'into_pairs_iter') and v and v[0] is arg('TRAVERSED'):
                ps = arr([tup(arg('item_' + p[0]), arg('RAYITEM')) for p in pieces])
                if nm in ('pairs', 'into_pairs'): return [(st, ps)]
                return [(st, mk('itarr', ps.a[0]))]
            if nm in ('curve', 'curve_owned') and v and v[0].k == 'arg' and v[0].a[0].startswith('item_'): return [(st, arg('piece_' + v[0].a[0][5:]))]
            if nm == 'new' and 'CurveBoundingBoxTree' in str(info.get('path', '')): return [(st, mk('call', 'tree', tuple(v)))]
            if nm in ('knots_domain_interval',): return [(st, arg('INTERVAL'))]
            pc = next((p for p in pieces if v and v[0] is arg('piece_' + p[0])), None)
            if pc is not None:
                k = pieces.index(pc)
                lo, hi = T0 + 10 * k, T1 + 10 * k
                if nm == 'knots_domain': return [(st, tup(cf(lo), cf(hi)))]
                if nm == 'point_at' and len(v) == 2:
                    t = numeric(v[1])
                    if t is None: return None
                    if t == lo: x, y = pc[1]
                    elif t == hi: x, y = pc[2]
                    else:
                        ev = evals.setdefault(pc[0], [])
                        if t not in ev: ev.append(t)
                        i = min(ev.index(t), len(pc[3]) - 1)
                        y, x = pc[3][i]
                    X = at(arg('px'), x, arg('far')); Y = at(arg('py'), y, op('Add', MD, G))
                    return [(st, arr([X, Y]))]
            r = norm_over(st, nm, v)
            return r
        class C(Case):
            def sign(self, t):
                ls = find(t, lambda x: x.k == 'call' and x.a[0] == 'LEN')
                return Case.sign(self, subst(t, {x: op('Add', MD, G) if sep else cf(0) for x in ls}) if ls else t)
        case = C(pos)
        return explore(ctx, f, a, over, case), evals
    seen = []
    for y0, y1, x0, x1, xm in itertools.product((-1, 0, 1), (-1, 0, 1), (-1, 0, 1), (-1, 0, 1), (-1, 0, 1)):
        if x0 < 0 and x1 < 0 and xm >= 0: continue
        outs, ev = go(None, [('a', (x0, y0), (x1, y1), [(0, xm)])], True)
        inst = 'ends %s and %s, crossing %s' % ((('left', 'at', 'right')[x0 + 1] + ' ' + ('below', 'level', 'above')[y0 + 1]), (('left', 'at', 'right')[x1 + 1] + ' ' + ('below', 'level', 'above')[y1 + 1]), ('left', 'at', 'right')[xm + 1])
        if outs is None: ctx.skip('ray', inst, 'budget'); continue
        want = [1 if ((y0 > 0) != (y1 > 0)) and xm >= 0 else 0, 1 if ((y0 >= 0) != (y1 >= 0)) and xm >= 0 else 0]
        for fs_, r in outs:
            v = r.a[3][0] if is_adt(r, RES, 'Ok') else None
            n = len(v.a[0]) if v is not None and v.k == 'arr' else None
            if n is None or fs_: ctx.skip('ray', inst, (show(r, 4) + ' ' + showf(fs_, 3))[:110]); continue
            seen.append((inst, n, want))
            ctx.count('ray cases')
    # a level end may count as above or as below, but always as the same
    conv = min((0, 1), key=lambda k: sum(1 for i, n, w in seen if n != w[k]))
    for inst, n, w in seen: ctx.ob('ray', inst, n == w[conv], f.span, 'a piece with %s is counted %d times' % (inst, n))
    # the search goes to the half in which the piece crosses
    for up in (True, False):
        for s1 in (1, -1):
            y0, y1 = (-1, 1) if up else (1, -1)
            outs, ev = go(None, [('a', (1, y0), (1, y1), [(s1, 1), (0, 1)])], True)
            inst = 'search in a piece going %s, first point %s' % ('up' if up else 'down', 'above' if s1 > 0 else 'below')
            t = ev.get('a', [])
            if outs is None or len(t) < 2: ctx.skip('ray', inst, 'search not recognised'); continue
            left = (s1 > 0) == up
            ctx.ob('ray', inst, (T0 < t[1] < t[0]) if left else (t[0] < t[1] < T1), f.span, 'the search for the crossing continues in the half without it')
    # two pieces crossed at different places both count; order and direction do not matter
    for dirs in itertools.product((True, False), repeat=2):
        ps = [(n, (1, -1 if d else 1), (1, 1 if d else -1), [(0, 1)]) for n, d in zip('ab', dirs)]
        outs, ev = go(None, ps, True)
        inst = 'two pieces going %s' % ' and '.join('up' if d else 'down' for d in dirs)
        for fs_, r in outs or []:
            v = r.a[3][0] if is_adt(r, RES, 'Ok') else None
            n = len(v.a[0]) if v is not None and v.k == 'arr' else None
            if n is None or fs_: ctx.skip('ray', inst, (show(r, 4) + ' ' + showf(fs_, 3))[:110]); continue
            ctx.ob('ray', inst, n == 2, f.span, '%s crossed at different places are counted %d times' % (inst, n))
    for v in built[:1]:
        if v.k == 'arr' and len(v.a[0]) == 2:
            s, e = ([comp(p, i) for i in (0, 1)] for p in v.a[0])
            N = Case([arg('LENGTH')])
            dx, dy = N.sign(op('Sub', e[0], s[0])), N.sign(op('Sub', e[1], s[1]))
            if s[0] is arg('px') and s[1] is arg('py') and dx is not None and dy is not None: ctx.ob('ray', 'direction', dx > 0 and dy == 0, f.span, 'the ray does not go from the point to the right')
            else: ctx.skip('ray', 'direction', show(v, 5)[:100])

def closed(ctx):
    m = ctx.m
    for ty in ('NurbsCurve', 'CompoundCurve'):
        fs = impls(ctx, 'is_closed', ty)
        if len(fs) != 1: ctx.anchor_missing('is_closed of ' + ty); continue
        f = fs[0]
        for mode in ('clamped', 'unclamped') if ty == 'NurbsCurve' else (1, 3):
            if ty == 'NurbsCurve':
                P = [arr([arg('%s%d' % (c, i)) for c in 'xyw']) for i in range(4)]
                me = curve(m, 2, [0.0, 0.0, 0.0, 1.0, 2.0, 2.0, 2.0] if mode == 'clamped' else [0.0, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0], P)
                if me is None: ctx.skip('closed', ty, 'fields changed'); continue
                want = {'clamped': [{arg('x0'), arg('x3')}, {('at', 0.0), ('at', 2.0)}], 'unclamped': [{('at', 2.0), ('at', 4.0)}]}[mode]
            else:
                me = build(m, 'CompoundCurve', {'spans': arr([arg('C%d' % i) for i in range(mode)])})
                if me is None: ctx.skip('closed', ty, 'fields changed'); continue
                want = [{('at', arg('C0'), 0), ('at', arg('C%d' % (mode - 1)), 1)}]
            for gap, res in ((0.0, True), (1.0, False)):
                lens = []
                def over(I, st, nm, v, info):
                    if nm == 'point_at' and len(v) == 2: return [(st, mk('call', 'AT', tuple(v)))]
                    if nm == 'knots_domain' and len(v) == 1 and v[0].k == 'arg': return [(st, tup(mk('call', 'D', (v[0], ci(0))), mk('call', 'D', (v[0], ci(1)))))]
                    if nm in ('norm', 'magnitude') and len(v) == 1: lens.append(v[0]); return [(st, cf(gap))]
                    if nm in ('norm_squared', 'magnitude_squared') and len(v) == 1: lens.append(v[0]); return [(st, cf(gap))]
                    if nm in ('distance', 'metric_distance', 'distance_squared') and len(v) == 2: lens.append(op('Sub', *v)); return [(st, cf(gap))]
                I = engine(ctx, inline=lambda g: True if g.name in ('is_clamped', 'spans') or g.span.startswith('src/knot') or g.name.startswith('dehomogenized') or g.name == 'knots_domain' and ty == 'NurbsCurve' else None, opaque=lambda g: True if g.name == 'point_at' or g.name == 'knots_domain' and ty != 'NurbsCurve' else None)
                I.exact, I.cap, I.unroll = True, 400, 64
                def ov(I, st, name, info, a):
                    e = eps_over(info['name'], a)
                    if e is not None: return [(st, e)]
                    return over(I, st, info['name'], [I.value(st, x) for x in a], info)
                I.override = ov
                try: outs = I.auto(f, {f.arg_names.get(1): me})
                except Budget: ctx.skip('closed', '%s %s' % (ty, mode), 'budget'); continue
                inst = '%s %s, ends %s' % (ty, mode, 'together' if res else 'apart')
                for s, r in outs:
                    if r not in (TRUE, FALSE) or not lens: ctx.skip('closed', inst, show(r, 4)[:100] + showf(s.f, 3)[:50]); continue
                    ctx.ob('closed', inst, (r is TRUE) == res, f.span, 'a %s is reported as %s' % (inst, 'closed' if r is TRUE else 'open'))
                    got = set()
                    for x in find(lens[0], lambda x: x.k == 'call' and x.a[0] == 'AT'):
                        t = x.a[1][1]
                        if numeric(t) is not None: got.add(('at', numeric(t)))
                        elif t.k == 'call' and t.a[0] == 'D': got.add(('at', x.a[1][0], numeric(t.a[1][1])) if t.a[1][0] is x.a[1][0] else ('mixed',))
                        else: got.add(('unknown',))
                    if not got: got = {x for x in roots(lens[0]) if x.a[0][0] == 'x'}
                    if ('unknown',) in got or not got: ctx.skip('closed', inst, show(lens[0], 5)[:100]); continue
                    ctx.ob('closed', '%s %s points' % (ty, mode), got in want, f.span, 'the points compared are not the first and the last: %s' % show(lens[0], 6)[:160])
