"""C16 bounding boxes: the overlap and containment tests and the construction of boxes as formulas over coordinates, decided for every
order type of the coordinates by the signs of the polynomials in them; the paired subdivision as value terms."""
from vf import *
from meshlab import *
from signs import *
import itertools

HUGE = arg('HUGE')
def lib(dim):
    def over(I, st, name, info, a):
        nm = info['name']
        if nm == 'dim' and not a: return [(st, ci(dim))]
        if nm in ('max_value', 'infinity') and not a: return [(st, some(HUGE) if nm == 'max_value' else HUGE)]
        if nm in ('min_value', 'neg_infinity') and not a: return [(st, some(op('Sub', cf(0), HUGE)) if nm == 'min_value' else op('Sub', cf(0), HUGE))]
        if nm == 'from_element' and len(a) == 1: return [(st, arr([I.value(st, a[0])] * dim))]
        if nm == 'repeat' and len(a) == 1: return [(st, arr([I.value(st, a[0])] * dim))]
        if nm == 'zeros' and not a: return [(st, arr([cf(0)] * dim))]
        if nm in ('default_epsilon', 'epsilon') and not a: return [(st, arg('EPSILON'))]
        if nm in ('inf', 'sup', 'zip_map') and len(a) >= 2:
            x, y = I.value(st, a[0]), I.value(st, a[1])
            if x.k == y.k == 'arr' and nm != 'zip_map': return [(st, arr([op('min' if nm == 'inf' else 'max', p, q) for p, q in zip(x.a[0], y.a[0])]))]
    return over
ishuge = lambda t: t is HUGE

def run(ctx, f, args, dim, extra=None, facts=(), **k):
    k.setdefault('inline', lambda g: True if g.span.startswith('src/bounding_box') or g.name.startswith('dehomogenized') else None)
    I = engine(ctx, **k); I.unroll, I.budget, I.t_end, I.exact, I.cap = 64, 300000, time.time() + 30, True, 400
    I.ground = frozenset(facts)
    base = lib(dim)
    def over(I, st, name, info, a):
        r = extra(I, st, name, info, a) if extra else None
        return r if r is not None else base(I, st, name, info, a)
    I.override = over
    try: return I.auto(f, args, frozenset(facts))
    except Budget: return None

def small(xs):
    """coordinates lie between the extreme values of the number type"""
    lo = op('Sub', cf(0), HUGE)
    return [(op('Lt', x, HUGE), True) for x in xs] + [(op('Lt', HUGE, x), False) for x in xs] + [(op('Lt', lo, x), True) for x in xs] + [(op('Lt', x, lo), False) for x in xs] + [(op('Le', x, HUGE), True) for x in xs] + [(op('Le', lo, x), True) for x in xs] + [(op('Le', HUGE, x), False) for x in xs] + [(op('Le', x, lo), False) for x in xs]

def check(ctx):
    ctx.rule('overlap', 'two boxes are reported disjoint exactly when one coordinate separates them by more than twice the tolerance, in whichever order they are given')
    ctx.rule('contains', 'a point is inside a box exactly when it lies between min and max, ends included, in every coordinate')
    ctx.rule('cover', 'a box made of two corners, of points, of a curve, of a compound curve or of a surface has the smallest and largest coordinates of all of them')
    ctx.rule('pairs', 'the paired subdivision examines every combination of children, discards a pair only when its boxes do not overlap, and reports every remaining indivisible pair')
    ctx.rule('children', 'a curve or surface tree divides its own object strictly inside its domain into two parts and keeps both; its box is the box of its own object')
    ctx.assumptions.append('real arithmetic instead of floating point; no NaN coordinates; tolerances are not negative')
    overlap(ctx); contains(ctx); cover(ctx); pairs(ctx); trees(ctx)

def mkbox(m, lo, hi): return build(m, 'BoundingBox', {'min': arr(lo), 'max': arr(hi)})
def method(ctx, nm, rule):
    fs = ctx.m.method('BoundingBox', nm)
    if len(fs) == 1: return fs[0]
    ctx.anchor_missing('BoundingBox::%s' % nm)

A = lambda n, d: arg('%s%d' % (n, d))
add = lambda *x: x[0] if len(x) == 1 else op('Add', x[0], add(*x[1:]))
T_ = arg('tol')
def interval_cases(d):
    """(name, lo0, hi0, lo1, hi1, tolerance, non-negative atoms, positive atoms, disjoint)"""
    a, p, q, w, g, h, e = (A(n, d) for n in 'apqwghe')
    out = []
    for sw in (0, 1):
        def put(n, x0, x1, y0, y1, t, z, pos, dis):
            out.append((n + (' swapped' if sw else ''),) + ((x0, x1, y0, y1) if not sw else (y0, y1, x0, x1)) + (t, z, pos, dis))
        put('overlapping', a, add(a, p, q), add(a, p), add(a, p, w), None, (p, q, w), (), False)
        put('separated', a, add(a, p), add(a, p, T_, T_, g), add(a, p, T_, T_, g, w), None, (p, w), (g,), True)
        put('gap up to the tolerance', a, add(a, p), add(a, p, g), add(a, p, g, w), add(g, h), (p, w, g, h), (), False)
        put('gap up to twice the tolerance', a, add(a, p), add(a, p, h, h, e), add(a, p, h, h, e, w), add(h, e), (p, w, h, e), (), False)
    return out

def overlap(ctx):
    m = ctx.m
    f = method(ctx, 'intersects', 'overlap')
    if not f: return
    for dim in (1, 2, 3):
        b0 = mkbox(m, [A('lo', d) for d in range(dim)], [A('hi', d) for d in range(dim)]); b1 = mkbox(m, [A('LO', d) for d in range(dim)], [A('HI', d) for d in range(dim)])
        if b0 is None: return ctx.skip('overlap', 'box', 'box fields changed')
        res = run(ctx, f, {f.arg_names.get(1): b0, f.arg_names.get(2): b1, f.arg_names.get(3): some(T_)}, dim, inline=lambda g: True if g.span.startswith('src/bounding_box') else None)
        if res is None: ctx.skip('overlap', '%d-D' % dim, 'budget'); continue
        cs = [interval_cases(d) for d in range(dim)]
        combos = []
        if dim == 1: combos = [(c,) for c in cs[0]]
        else:
            ov = [[c for c in x if c[0].startswith('overlapping')] for x in cs]
            for d in range(dim):
                for c in cs[d]:
                    for o in itertools.product(*[ov[k] if k != d else [c] for k in range(dim)]): combos.append(o)
            if dim == 3: combos = [c for c in combos if len({x[0].endswith('swapped') for x in c}) == 1]
            else: combos += [(x, y) for x in cs[0] for y in cs[1] if x[-1] and y[-1]]
        combos = list(dict.fromkeys(combos))
        for combo in combos:
            tol = [c[5] for c in combo if c[5] is not None]
            tol = tol[0] if tol else T_
            inst = '%d-D %s' % (dim, ', '.join(c[0] for c in combo))
            sub = {T_: tol}
            for d, c in enumerate(combo): sub.update({A('lo', d): c[1], A('hi', d): c[2], A('LO', d): c[3], A('HI', d): c[4]})
            r = [(frozenset((subst(c, sub), p) for c, p in s.f), subst(v, sub)) for s, v in res]
            want = not any(c[-1] for c in combo)
            nonneg = [x for c in combo for x in c[6]] + ([T_] if tol is T_ else [])
            pos = [x for c in combo for x in c[7]]
            # every atom zero or positive; for several dimensions only all positive / all zero / one zero
            subs = list(subsets(nonneg)) if dim == 1 else [(nonneg, []), ([], nonneg)] + [([x for x in nonneg if x is not y], [y]) for y in nonneg]
            bad = und = None
            for ps, zs in subs:
                C = Case(ps + pos, zs, ishuge)
                for fs, v in r:
                    k = C.facts(fs)
                    if k is False: continue
                    val = C.cond(v)
                    if k is None or val is None: und = showf(fs, 4)[:80] + ' ' + show(v, 3)[:60]; continue
                    if val != want: bad = zs
                ctx.count('overlap cases')
            if bad is not None: ctx.ob('overlap', inst, False, f.span, 'boxes that are %s are reported as %s%s' % (', '.join(c[0] for c in combo), 'overlapping' if not want else 'disjoint', ' (with %s = 0)' % ', '.join(sorted(show(z) for z in bad)) if bad else ''))
            elif und: ctx.skip('overlap', inst, und)
            else: ctx.ob('overlap', inst)

def contains(ctx):
    m = ctx.m
    f = method(ctx, 'contains', 'contains')
    if not f: return
    def places(d):
        a, p, q, g = (A(n, d) for n in 'apqg')
        return [('below', add(a, g), add(a, g, p), a, [p], [g], False), ('inside', a, add(a, p, q), add(a, p), [p, q], [], True), ('above', a, add(a, p), add(a, p, g), [p], [g], False)]
    for dim in (1, 2, 3):
        for combo in itertools.product(*[places(d) for d in range(dim)]):
            b = mkbox(m, [c[1] for c in combo], [c[2] for c in combo])
            if b is None: return ctx.skip('contains', 'box', 'box fields changed')
            inst = '%d-D %s' % (dim, ', '.join(c[0] for c in combo))
            r = run(ctx, f, {f.arg_names.get(1): b, f.arg_names.get(2): arr([c[3] for c in combo])}, dim)
            if r is None: ctx.skip('contains', inst, 'budget'); continue
            want = all(c[-1] for c in combo)
            nonneg, pos = [x for c in combo for x in c[4]], [x for c in combo for x in c[5]]
            decide(ctx, 'contains', inst, f, r, want, subsets(nonneg), pos, 'a point that is %s in the coordinates is reported as %s' % (', '.join(c[0] for c in combo), 'outside' if want else 'contained'))

def decide(ctx, rule, inst, f, r, want, subs, pos, msg):
    bad = und = None
    for ps, zs in subs:
        C = Case(list(ps) + list(pos), zs, ishuge)
        for s, v in r:
            k = C.facts(s.f)
            if k is False: continue
            val = C.cond(v)
            if k is None or val is None: und = showf(s.f, 4)[:80] + ' ' + show(v, 3)[:60]
            elif val != want: bad = zs
        ctx.count(rule + ' cases')
    if bad is not None: ctx.ob(rule, inst, False, f.span, msg + (' (with %s = 0)' % ', '.join(sorted(show(z) for z in bad)) if bad else ''))
    elif und: ctx.skip(rule, inst, und)
    else: ctx.ob(rule, inst)

def coords(n, dim):
    """n points with the coordinates in every relative order: per dimension a permutation of base, base+s, base+s+t, ..."""
    base = []
    for d in range(dim):
        v = [A('a', d)]
        for k in range(1, n): v.append(op('Add', v[-1], A('s%d_' % k, d)))
        base.append(v)
    return base

class Out:
    def __init__(self, f): self.f = f
def placed(res, X, base, px, py, at=None):
    """the outcomes with the points put in the given relative order"""
    if res is None: return None
    sub = {}
    for i, x in enumerate(X):
        for d, y in enumerate(x): sub[y] = at(i, d) if at else base[d][(px, py, px)[d][i]]
    return [(Out(frozenset((subst(c, sub), p) for c, p in s.f)), subst(v, sub)) for s, v in res]
def boxcheck(ctx, rule, inst, f, r, lo, hi, steps, dim):
    m = ctx.m
    bad = und = None
    # anywhere, all coordinates negative, all positive
    neg = {A('a', d): op('Sub', cf(0), add(A('z', d), *[x for x in steps if x.a[0].endswith(str(d))])) for d in range(dim)}
    pos = {A('a', d): A('z', d) for d in range(dim)}
    for sh in ({}, neg, pos):
        und = None
        for ps, zs in [(steps, []), ([], steps)] + [([x for x in steps if x is not y], [y]) for y in steps]:
            C = Case(ps + [A('z', d) for d in range(dim)], zs, ishuge)
            for s, v in r:
                live = C.facts(frozenset((subst(c, sh), p) for c, p in s.f))
                if live is False: continue
                if v.k == 'adt' and v.a[1] == 'Ok': v = v.a[3][0]
                if not (v.k == 'adt' and 'min' in v.a[2] and 'max' in v.a[2]): und = show(v, 3)[:80]; continue
                for d in range(dim):
                    for nm, want in (('min', lo[d]), ('max', hi[d])):
                        x = C.reduce(subst(elem(fld(v, nm), ci(d)), sh))
                        k = C.same(x, subst(want, sh))
                        if k is None: und = '%s[%d] = %s' % (nm, d, show(x, 4)[:80])
                        elif not k and live is None: und = showf(s.f, 3)
                        elif not k: bad = '%s[%d] is %s instead of %s' % (nm, d, show(x, 6), show(want, 6))
            ctx.count('cover cases')
        if bad or not und: break
    if bad: ctx.ob(rule, inst, False, f.span, bad)
    elif und: ctx.skip(rule, inst, und)
    else: ctx.ob(rule, inst)

def cover(ctx):
    m = ctx.m
    # two corners in any order
    f = method(ctx, 'new', 'cover')
    for dim in (1, 2, 3):
        if not f: break
        base = coords(2, dim)
        for perm in itertools.product((0, 1), repeat=dim):
            c0 = arr([base[d][perm[d]] for d in range(dim)]); c1 = arr([base[d][1 - perm[d]] for d in range(dim)])
            Y = [arg('y%d_%d' % (i, d)) for i in (0, 1) for d in range(dim)]
            r = run(ctx, f, {f.arg_names.get(1): arr(Y[:dim]), f.arg_names.get(2): arr(Y[dim:])}, dim, None, small(Y))
            r = placed(r, [Y[:dim], Y[dim:]], base, None, None, lambda i, d: (c0, c1)[i].a[0][d])
            inst = 'two corners %s' % (perm,)
            if r is None: ctx.skip('cover', inst, 'budget'); continue
            boxcheck(ctx, 'cover', inst, f, r, [b[0] for b in base], [b[1] for b in base], [A('s1_', d) for d in range(dim)], dim)
    # points
    entries = [('points', x) for x in m.method('BoundingBox', 'new_with_points')] + [('collected points', x) for x in m.fns.values() if x.name == 'from_iter' and (x.self_adt() or '').endswith('::BoundingBox')]
    for n, dim in ((4, 1), (2, 2), (2, 3)):
        base = coords(n, dim)
        steps = [A('s%d_' % k, d) for k in range(1, n) for d in range(dim)]
        perms = list(itertools.permutations(range(n)))
        lo, hi = [b[0] for b in base], [b[-1] for b in base]
        for nm, f in entries:
            X = [[arg('x%d_%d' % (i, d)) for d in range(dim)] for i in range(n)]
            res = run(ctx, f, {f.arg_names.get(1): arr([arr(x) for x in X])}, dim, None, small([y for x in X for y in x]))
            for px in perms:
                for py in (perms[0], perms[-1]) if dim > 1 else perms[:1]:
                    r = placed(res, X, base, px, py)
                    inst = '%d-D %s in order %s %s' % (dim, nm, px, py)
                    if r is None: ctx.skip('cover', inst, 'budget'); continue
                    boxcheck(ctx, 'cover', inst, f, r, lo, hi, steps, dim)
    # objects: their dehomogenized control points
    conv = [x for x in m.fns.values() if x.name == 'from' and (x.self_adt() or '').endswith('::BoundingBox')]
    kinds = {}
    for x in conv:
        t = str(x.lty(1))
        for k in ('NurbsCurve', 'CompoundCurve', 'NurbsSurface'):
            if k in t: kinds[k] = x
    for k in ('NurbsCurve', 'CompoundCurve', 'NurbsSurface'):
        f = kinds.get(k)
        if f is None: ctx.anchor_missing('bounding box of a %s' % k); continue
        n, dim = 4, 1
        base = coords(n, dim); lo, hi = [b[0] for b in base], [b[-1] for b in base]
        steps = [A('s%d_' % i, d) for i in range(1, n) for d in range(dim)]
        cps = [arg('cp%d' % i) for i in range(n)]
        curve = lambda c: build(m, 'NurbsCurve', {'degree': ci(1), 'control_points': arr(c), 'knots': arg('K')})
        obj = {'NurbsCurve': lambda: curve(cps), 'CompoundCurve': lambda: build(m, 'CompoundCurve', {'spans': arr([curve(cps[:2]), curve(cps[2:])])}),
               'NurbsSurface': lambda: build(m, 'NurbsSurface', {'control_points': arr([arr(cps[:2]), arr(cps[2:])]), 'u_degree': ci(1), 'v_degree': ci(1), 'u_knots': arg('KU'), 'v_knots': arg('KV')})}[k]()
        if obj is None: ctx.skip('cover', k, 'fields changed'); continue
        X = [[arg('x%d_%d' % (i, d)) for d in range(dim)] for i in range(n)]
        def extra(I, st, name, info, a):
            if info['name'] == 'dehomogenize' and len(a) == 1:
                v = I.value(st, a[0])
                if v in cps: return [(st, some(arr(X[cps.index(v)])))]
        res = run(ctx, f, {f.arg_names.get(1): obj}, dim, extra, small([y for x in X for y in x]))
        for px in itertools.permutations(range(n)):
            py = px[::-1]
            r = placed(res, X, base, px, py)
            inst = 'box of a %s, order %s' % (k, px)
            if r is None: ctx.skip('cover', inst, 'budget'); continue
            boxcheck(ctx, 'cover', inst, f, r, lo, hi, steps, dim)

# ---------------------------------------------------------------- subdivision
def pairs(ctx):
    m = ctx.m
    fs = m.method('BoundingBoxTraversal', 'try_traverse')
    if len(fs) != 1: return ctx.anchor_missing('BoundingBoxTraversal::try_traverse')
    f = fs[0]
    ta, tb = arg('A'), arg('B')
    def kids(t): return [arg('%s%d' % (t.a[0], i)) for i in (0, 1)]
    def depth(t): return len(t.a[0]) - 1
    for da, db in ((0, 0), (1, 0), (0, 1), (1, 1), (2, 0), (0, 2), (1, 2), (2, 1)):
        def leafs(t, d): return [t] if depth(t) == d else [x for k in kids(t) for x in leafs(k, d)]
        allp = [(x, y) for x in leafs(ta, da) for y in leafs(tb, db)]
        cands = [None, (ta, tb)] + allp[:1] + allp[-1:] + ([(kids(ta)[1], tb)] if da > 1 else []) + ([(ta, kids(tb)[0])] if db > 1 else [])
        for miss in cands:
            for fail in (None, 'A', 'B') if miss is None else (None,):
                tols = []
                def over(I, st, name, info, a):
                    nm = info['name']
                    v = [I.value(st, x) for x in a]
                    if nm == 'bounding_box' and v and v[0].k == 'arg': return [(st, mk('call', 'box', (v[0],)))]
                    if nm == 'intersects' and len(v) == 3 and all(x.k == 'call' and x.a[0] == 'box' for x in v[:2]):
                        tols.append(v[2])
                        x, y = v[0].a[1][0], v[1].a[1][0]
                        if x.a[0][0] == 'B': x, y = y, x
                        return [(st, FALSE if miss and x.a[0].startswith(miss[0].a[0]) and y.a[0].startswith(miss[1].a[0]) else TRUE)]
                    if nm == 'is_dividable' and v[0].k == 'arg': return [(st, TRUE if depth(v[0]) < (da if v[0].a[0][0] == 'A' else db) else FALSE)]
                    if nm == 'try_divide' and v[0].k == 'arg':
                        if fail == v[0].a[0][0]: return [(st, err(arg('E')))]
                        return [(st, ok(tup(*kids(v[0]))))]
                I = engine(ctx, inline=lambda g: True if g.span.startswith('src/bounding_box') else None); I.unroll, I.budget = 60, 100000
                I.override = over
                inst = 'trees of depth %d and %d%s%s' % (da, db, ', %s and %s apart' % tuple(show(x) for x in miss) if miss else '', ', division of %s fails' % fail if fail else '')
                try: outs = I.auto(f, {f.arg_names.get(1): ta, f.arg_names.get(2): tb})
                except Budget: ctx.skip('pairs', inst, 'budget'); continue
                for s, r in outs:
                    if fail and (da if fail == 'A' else db) > 0:
                        ctx.ob('pairs', inst, is_adt(r, RES, 'Err'), f.span, 'the failure of a division is not reported')
                        continue
                    v = r.a[3][0] if is_adt(r, RES, 'Ok') else None
                    ps = fld(v, 'pairs') if v is not None and v.k == 'adt' and 'pairs' in v.a[2] else None
                    if ps is None or ps.k != 'arr' or not all(x.k == 'tup' for x in ps.a[0]): ctx.skip('pairs', inst, 'pairs not explicit: %s' % show(r, 3)[:80]); continue
                    got = sorted((show(x.a[0][0]), show(x.a[0][1])) for x in ps.a[0])
                    def apart(x, y): return miss is not None and (x.a[0].startswith(miss[0].a[0]) and y.a[0].startswith(miss[1].a[0]))
                    want = sorted((show(x), show(y)) for x, y in allp if not apart(x, y))
                    ctx.ob('pairs', inst, got == want, f.span, 'reported pairs %s instead of %s' % (got, want))
                for t in tols:
                    t = t.a[3][0] if is_adt(t, OPT, 'Some') else t
                    n = numeric(t)
                    if n is not None: ctx.ob('pairs', 'tolerance', n >= 0, f.span, 'boxes are compared with the tolerance %s, so touching boxes are discarded' % n)
                ctx.count('subdivisions decided')

def tm(m, ty, nm): return [g for g in m.fns.values() if g.name == nm and (g.self_adt() or '').endswith('::' + ty)]
def trees(ctx):
    m = ctx.m
    for ty, field in (('CurveBoundingBoxTree', 'curve'), ('SurfaceBoundingBoxTree', 'surface')):
        fs = tm(m, ty, 'try_divide')
        if len(fs) != 1: ctx.skip('children', ty, 'tree not recognised'); continue
        f = fs[0]
        LO, W = arg('lo'), arg('w')
        for d in ('U', 'V') if field == 'surface' else (None,):
            dd = unit_adt(m, 'UVDirection', d) if d else None
            vals = {field: arg('OBJ'), 'tolerance': arg('TOL')}
            if d: vals['direction'] = dd
            me = build(m, ty, vals)
            if me is None: ctx.skip('children', ty, 'fields changed'); continue
            splits = []
            def over(I, st, name, info, a):
                nm = info['name']
                v = [I.value(st, x) for x in a]
                dom = {'U': (LO, op('Add', LO, W)), 'V': (arg('vlo'), op('Add', arg('vlo'), arg('vw'))), None: (LO, op('Add', LO, W))}
                def own(): return v and not (set(roots(v[0])) - {arg('OBJ')}) and roots(v[0])
                if nm == 'knots_domain' and own():
                    return [(st, tup(*dom[None]))] if not d else [(st, tup(tup(*dom['U']), tup(*dom['V'])))]
                if nm == 'knots_domain_interval' and own(): return [(st, W)] if not d else [(st, tup(W, arg('vw')))]
                if nm == 'u_knots_domain' and own(): return [(st, tup(*dom['U']))]
                if nm == 'v_knots_domain' and own(): return [(st, tup(*dom['V']))]
                if nm == 'knots_domain_at' and len(v) == 2 and v[1].k == 'adt': return [(st, tup(*dom[v[1].a[1]]))]
                if nm in ('random', 'gen', 'random_range', 'gen_range', 'sample'): return [(st, arg('RANDOM'))] if nm in ('random', 'gen') else None
                if nm in ('try_split', 'split'):
                    splits.append((st.f, v)); return [(st, ok(tup(arg('HEAD'), arg('TAIL'))))]
            I = engine(ctx, inline=lambda g: True if g.span.startswith('src/bounding_box') or (g.self_adt() or '').endswith('::UVDirection') else None); I.override = over
            try: outs = I.auto(f, {f.arg_names.get(1): me})
            except Budget: ctx.skip('children', ty, 'budget'); continue
            inst = ty + (' in direction ' + d if d else '')
            for s, r in outs:
                p = r.a[3][0] if is_adt(r, RES, 'Ok') else None
                if p is None or p.k != 'tup' or not all(x.k == 'adt' for x in p.a[0]): ctx.skip('children', inst, show(r, 3)[:80]); continue
                got = [sorted(show(x) for x in roots(fld(x, field)) if x in (arg('HEAD'), arg('TAIL'), arg('OBJ'))) for x in p.a[0]]
                ctx.ob('children', inst + ' parts', got == [['HEAD'], ['TAIL']] or got == [['TAIL'], ['HEAD']], f.span, 'the two children hold %s' % got)
                ctx.ob('children', inst + ' tolerance', all(fld(x, 'tolerance') is arg('TOL') for x in p.a[0]), f.span, 'a child does not keep the stopping tolerance')
            for fs_, v in splits:
                par, dr = v[1], None
                if par.k == 'adt':
                    dr = next((x.a[1] for x in par.a[3] if x.k == 'adt' and x.a[0].endswith('UVDirection')), None)
                    c = [x for x in par.a[3] if not (x.k == 'adt' and x.a[0].endswith('UVDirection'))]
                    par = c[0] if len(c) == 1 else None
                if par is None: ctx.skip('children', inst, 'split option not recognised'); continue
                lo, w = (add(LO, W, arg('z')), arg('vw')) if dr == 'V' else (LO, W)
                bad = und = False
                for rnd in (0.0, 1.0):
                    far = {arg('vlo'): add(LO, W, arg('z'))}     # the v domain lies beyond the u domain
                    x = subst(subst(par, {arg('RANDOM'): cf(rnd)}), far)
                    C = Case([LO, W, arg('z'), arg('vw')])
                    a, b = C.sign(op('Sub', x, lo)), C.sign(op('Sub', op('Add', lo, w), x))
                    if a is None or b is None: und = True
                    elif a <= 0 or b <= 0: bad = True
                if bad: ctx.ob('children', inst + ' parameter', False, f.span, 'the object is divided at %s, which is not always inside its domain' % show(par, 6))
                elif und: ctx.skip('children', inst + ' parameter', show(par, 6)[:100])
                else: ctx.ob('children', inst + ' parameter')
        bs = tm(m, ty, 'bounding_box')
        if len(bs) == 1:
            I = engine(ctx)
            I.override = lambda I, st, name, info, a: [(st, mk('call', 'box', (I.value(st, a[0]),)))] if info['name'] in ('into', 'from') and len(a) == 1 else None
            for s, r in I.auto(bs[0], {bs[0].arg_names.get(1): arg('SELF')}):
                rs = roots(r)
                if r.k == 'call' and r.a[0] == 'box': ctx.ob('children', ty + ' box', find(r, lambda x: x is fld(arg('SELF'), field)) != set(), bs[0].span, 'the box of a tree is %s' % show(r, 5))
                else: ctx.skip('children', ty + ' box', show(r, 4)[:80])
