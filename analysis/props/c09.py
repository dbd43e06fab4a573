"""C09 whole-object operations: each operation is interpreted on objects of several sizes whose control points, vertices and weights are symbols; the result
must be, component by component, what the operation means, with nothing skipped, repeated or mixed, and everything else carried over."""
from curvelab import *
from signs import *
from solverlab import impls
from poly import same
import itertools

def check(ctx):
    ctx.rule('transform', 'every control point is moved by the matrix, its weight and all other data kept')
    ctx.rule('invert', 'inverting reverses control points and mirrors knots, of every part, so that the parameter runs backwards over the same shape')
    ctx.rule('flip', 'flipping reverses the rows or columns it names and mirrors the knots of that direction only')
    ctx.rule('cast', 'every number is cast, in place')
    ctx.rule('other', 'transposing and raising the dimension keep every control point')
    ctx.assumptions.append('matrix times vector and the number conversion of nalgebra are taken as given')
    transforms(ctx); inverts(ctx); flips(ctx); casts(ctx); others(ctx)

KS = [(1, 2, [0., 0., 1., 1.]), (2, 3, [0., 0., 0., 2., 2., 2.]), (2, 5, [1., 1., 1., 1.5, 3., 4., 4., 4.]), (3, 4, [0., .25, 1., 2., 2.5, 3., 4., 8.]), (1, 4, [0., 0., .5, .5, 2., 2.])]
def pt(tag, n): return arr([arg('%s_%d' % (tag, i)) for i in range(n - 1)] + [arg('%s_w' % tag)])
def pts(tag, n, dim): return [pt('%s%d' % (tag, i), dim) for i in range(n)]
def crv(m, k, tag, dim=3, shift=0.):
    p, n, ks = KS[k % len(KS)]
    return curve(m, p, [x + shift for x in ks], pts(tag, n, dim))
def compound(m, n, tag, dim=3, k0=0):
    cs, at = [], 0.
    for i in range(n):
        ks = KS[(k0 + i) % 3][2]
        cs.append(crv(m, (k0 + i) % 3, '%s%d' % (tag, i), dim, at - ks[0])); at += ks[-1] - ks[0]
    return build(m, 'CompoundCurve', {'spans': arr(cs)})
def surf(m, ku, kv, tag, dim=4):
    pu, nu, u = KS[ku]; pv, nv, v = KS[kv]
    v = [10. + 2 * x for x in v]
    U, V = knots(m, u), knots(m, v)
    return None if U is None else build(m, 'NurbsSurface', {'u_degree': ci(pu), 'v_degree': ci(pv), 'u_knots': U, 'v_knots': V, 'control_points': arr([arr(pts('%s%d_' % (tag, i), nv, dim)) for i in range(nu)])})
def trimmed(m, s, ext, ints): return build(m, 'TrimmedSurface', {'surface': s, 'exterior': NONE if ext is None else some(ext), 'interiors': arr(ints)})
def region(m, ext, ints): return build(m, 'Region', {'exterior': ext, 'interiors': arr(ints)})

def run(ctx, f, args, D=3, t=15):
    """[(final first argument, result)] or None"""
    I = engine(ctx, inline=lambda g: True, opaque=lambda g: None)
    I.consts, I.unroll, I.budget, I.t_end, I.exact, I.cap = {'D': D}, 60, 400000, time.time() + t, True, 64
    def over(I, st, name, info, a):
        nm = info['name']
        if nm == 'mul' and len(a) == 2:
            x, v = I.value(st, a[0]), I.value(st, a[1])
            if x is arg('M') and v.k == 'arr': return [(st, times(v))]
        if nm == 'dim': return [(st, ci(D))]
        if nm in ('cast', 'convert', 'to_superset', 'from_subset', 'convert_ref') and a and ('nalgebra' in name or 'simba' in name):
            v = I.value(st, a[0])
            return [(st, arr([mk('call', 'cast', (x,)) for x in v.a[0]]) if v.k == 'arr' else mk('call', 'cast', (v,)))]
        if nm == 'from_slice' and a: return [(st, I.value(st, a[0]))]
        return None
    I.override = over
    with deciding(Case()):
        try: outs = I.auto(f, args)
        except Budget: return None
        return [(s.f, s.s.get(('r', 0)), I.value(s, r)) for s, r in outs]
def times(v):
    n = len(v.a[0])
    def row(i):
        r = None
        for j in range(n):
            x = op('Mul', arg('m%d%d' % (i, j)), v.a[0][j]); r = x if r is None else op('Add', r, x)
        return r
    return arr([row(i) for i in range(n)])
def moved(p):
    c = p.a[0]; w = c[-1]
    q = times(arr([op('Div', x, w) for x in c[:-1]] + [cf(1.)])).a[0]
    return arr([op('Mul', op('Div', x, q[-1]), w) for x in q[:-1]] + [w])

def diff(a, b, path=''):
    """first place where two values differ: '' when equal, None when undecided"""
    if a is b: return ''
    if a.k in ('arr', 'tup') and b.k in ('arr', 'tup'):
        if len(a.a[0]) != len(b.a[0]): return '%s has %d entries instead of %d' % (path or 'it', len(a.a[0]), len(b.a[0]))
        ds = [diff(x, y, '%s[%d]' % (path, i)) for i, (x, y) in enumerate(zip(a.a[0], b.a[0]))]
    elif a.k == 'adt' and b.k == 'adt':
        if a.a[0] != b.a[0] or a.a[1] != b.a[1]: return '%s is %s instead of %s' % (path or 'it', a.a[1], b.a[1])
        ds = [diff(fld(a, n), fld(b, n), path + '.' + n if path else n) for n in b.a[2]]
    else:
        x, y = numeric(a), numeric(b)
        if x is not None and y is not None: return '' if abs(float(x) - float(y)) < 1e-9 else '%s is %g instead of %g' % (path, x, y)
        r = same(a, b)
        return '' if r else None if r is None or not (pure(a) and pure(b)) else '%s is %s instead of %s' % (path or 'it', show(a, 4)[:80], show(b, 4)[:60])
    bad = [d for d in ds if d]
    return bad[0] if bad else None if None in ds else ''
def pure(t):
    """a formula of constants and of our own symbols"""
    return not find(t, lambda z: z.k not in ('op', 'arg', 'c', 'lin') and not (z.k == 'call' and z.a[0] == 'cast'))
def judge(ctx, rule, inst, f, outs, want, which):
    if not outs: return ctx.skip(rule, inst, 'not interpreted')
    for fs, me, r in outs:
        got = me if which == 'self' else r
        if fs: ctx.skip(rule, inst, showf(fs, 3)[:100]); continue
        if got is None: ctx.skip(rule, inst, 'no value'); continue
        d = diff(got, want)
        if d is None: ctx.skip(rule, inst, show(got, 6)[:160]); continue
        ctx.ob(rule, inst, d == '', f.span, '%s: %s' % (inst, d)); ctx.count('objects')
def pub(ctx, nm, ty, trait=None):
    """the method, public or of a trait; None when absent"""
    fs = ctx.m.method(ty, nm) + impls(ctx, nm, ty)
    fs = list({f.id: f for f in fs}.values())
    if len(fs) != 1: ctx.anchor_missing('%s::%s' % (ty, nm)); return None
    return fs[0]
def mapped(t, g):
    """applies g to every control point list entry of points (arr ending in a weight)"""
    if t.k == 'arr' and t.a[0] and t.a[0][-1].k == 'arg' and t.a[0][-1].a[0].endswith('_w'): return g(t)
    if t.k == 'arr': return arr([mapped(x, g) for x in t.a[0]])
    if t.k == 'adt': return adt(t.a[0], t.a[1], t.a[2], tuple(mapped(x, g) for x in t.a[3]))
    return t
def put(t, **kw): return adt(t.a[0], t.a[1], t.a[2], tuple(kw.get(n, v) for n, v in zip(t.a[2], t.a[3])))
def rev(t): return arr(list(reversed(t.a[0])))
def mirror(m, kt):
    ks = knots_of(kt)
    return knots(m, [ks[0] + ks[-1] - x for x in reversed(ks)])
def inv(m, c): return put(c, control_points=rev(fld(c, 'control_points')), knots=mirror(m, fld(c, 'knots')))

def regions(m):
    for n, ints in ((1, []), (2, [1]), (3, [2, 1]), (1, [1, 3, 2])):
        yield '%d spans, %d interiors' % (n, len(ints)), region(m, compound(m, n, 'E'), [compound(m, k, 'I%d_' % i, k0=i) for i, k in enumerate(ints)])
def trims(m, dim=3):
    for e, n in ((None, 0), (1, 0), (None, 2), (0, 1), (2, 3)):
        yield '%s exterior, %d interiors' % ('no' if e is None else 'an', n), trimmed(m, surf(m, 2, 1, 'S'), None if e is None else crv(m, e, 'E', dim), [crv(m, i, 'I%d_' % i, dim) for i in range(n)])

def transforms(ctx):
    m = ctx.m
    def go(ty, objs, D, want=lambda o: mapped(o, moved)):
        f = pub(ctx, 'transform', ty)
        if f is None: return
        an = [f.arg_names.get(i) for i in range(1, f.nargs + 1)]
        for nm, o in objs:
            if o is None: ctx.skip('transform', ty, 'fields changed'); continue
            judge(ctx, 'transform', '%s transformed: %s' % (ty, nm), f, run(ctx, f, {an[0]: o, an[1]: arg('M')}, D), want(o), 'self')
    for dim in (3, 4):
        go('NurbsCurve', [('dimension %d, degree %d, %d points' % (dim - 1, KS[k][0], KS[k][1]), crv(m, k, 'P', dim)) for k in range(len(KS))], dim)
    go('NurbsSurface', [('%d x %d points' % (KS[a][1], KS[b][1]), surf(m, a, b, 'P')) for a, b in ((0, 1), (2, 0), (1, 3))], 4)
    go('CompoundCurve', [('%d spans' % n, compound(m, n, 'C')) for n in (1, 2, 4)], 3)
    go('Region', list(regions(m)), 3)
    go('TrimmedSurface', list(trims(m)), 4, lambda o: put(o, surface=mapped(fld(o, 'surface'), moved)))

def inverts(ctx):
    m = ctx.m
    def go(ty, objs, want):
        f = pub(ctx, 'invert', ty)
        if f is None: return
        for nm, o in objs:
            if o is None: ctx.skip('invert', ty, 'fields changed'); continue
            judge(ctx, 'invert', '%s inverted: %s' % (ty, nm), f, run(ctx, f, {f.arg_names.get(1): o}), want(o), 'self')
        # the copying variant
        cp = [g for g in m.fns.values() if g.name == 'inverse' and g.id.split('::')[-2].startswith('Invertible')]
        return f
    go('KnotVector', [('%s' % (ks,), knots(m, ks)) for p, n, ks in KS], lambda o: mirror(m, o))
    for dim in (3, 4): go('NurbsCurve', [('degree %d, %d points, dimension %d' % (KS[k][0], KS[k][1], dim - 1), crv(m, k, 'P', dim)) for k in range(len(KS))], lambda o: inv(m, o))
    def isurf(o): return put(o, control_points=rev(arr([rev(r) for r in fld(o, 'control_points').a[0]])), u_knots=mirror(m, fld(o, 'u_knots')), v_knots=mirror(m, fld(o, 'v_knots')))
    go('NurbsSurface', [('%d x %d points' % (KS[a][1], KS[b][1]), surf(m, a, b, 'P')) for a, b in ((0, 1), (2, 0), (1, 3))], isurf)
    def icomp(o):
        sp, at, out = list(fld(o, 'spans').a[0]), None, []
        at = knots_of(fld(sp[0], 'knots'))[0]
        for c in reversed(sp):
            i = inv(m, c); ks = knots_of(fld(i, 'knots'))
            out.append(put(i, knots=knots(m, [x - ks[0] + at for x in ks]))); at += ks[-1] - ks[0]
        return put(o, spans=arr(out))
    go('CompoundCurve', [('%d spans' % n, compound(m, n, 'C')) for n in (1, 2, 4)], icomp)
    go('Region', list(regions(m)), lambda o: put(o, exterior=icomp(fld(o, 'exterior')), interiors=arr([icomp(c) for c in fld(o, 'interiors').a[0]])))
    def itrim(o):
        s = fld(o, 'surface')
        u, v = knots_of(fld(s, 'u_knots')), knots_of(fld(s, 'v_knots'))
        def mir(p): return arr([op('Sub', op('Mul', cf(k[0] + k[-1]), p.a[0][-1]), x) for k, x in zip((u, v), p.a[0])] + [p.a[0][-1]])
        def g(c): return mapped(inv(m, c), mir)
        e = fld(o, 'exterior')
        return put(o, surface=isurf(s), exterior=some(g(e.a[3][0])) if is_adt(e, OPT, 'Some') else NONE, interiors=arr([g(c) for c in fld(o, 'interiors').a[0]]))
    go('TrimmedSurface', list(trims(m)), itrim)

def flips(ctx):
    m = ctx.m
    f = pub(ctx, 'flip', 'NurbsSurface')
    if f is None: return
    an = [f.arg_names.get(i) for i in range(1, f.nargs + 1)]
    for (a, b), d in itertools.product(((0, 1), (2, 0), (1, 3)), ('U', 'V', 'UV')):
        o = surf(m, a, b, 'P'); dd = unit_adt(m, 'FlipDirection', d)
        if o is None or dd is None: ctx.skip('flip', d, 'fields changed'); continue
        cp, kw = fld(o, 'control_points'), {}
        if 'U' in d: cp = rev(cp); kw['u_knots'] = mirror(m, fld(o, 'u_knots'))
        if 'V' in d: cp = arr([rev(r) for r in cp.a[0]]); kw['v_knots'] = mirror(m, fld(o, 'v_knots'))
        inst = '%d x %d points flipped in %s' % (KS[a][1], KS[b][1], d)
        outs = run(ctx, f, {an[0]: o, an[1]: dd})
        judge(ctx, 'flip', inst, f, outs, put(o, control_points=cp, **kw), 'return')

def casted(t, top=True):
    if t.k == 'arr': return arr([casted(x, False) for x in t.a[0]])
    if t.k == 'adt': return adt(t.a[0], t.a[1], t.a[2], tuple(casted(x, False) if n not in ('degree', 'u_degree', 'v_degree', 'faces') else x for n, x in zip(t.a[2], t.a[3])))
    return mk('call', 'cast', (t,))
def casts(ctx):
    m = ctx.m
    def go(ty, objs, D=3):
        f = pub(ctx, 'cast', ty)
        if f is None: return
        for nm, o in objs:
            if o is None: ctx.skip('cast', ty, 'fields changed'); continue
            judge(ctx, 'cast', '%s cast: %s' % (ty, nm), f, run(ctx, f, {f.arg_names.get(1): o}, D), casted(o), 'return')
    def sym(n): return arr([arg('k%d' % i) for i in range(n)])
    a = find_adt(m, 'KnotVector')
    kv = lambda n: adt(a['path'], a['v'][0]['n'], [a['v'][0]['f'][0]['n']], (sym(n),)) if a else None
    go('KnotVector', [('%d knots' % n, kv(n)) for n in (2, 5, 9)])
    go('NurbsCurve', [('%d points' % n, build(m, 'NurbsCurve', {'degree': ci(2), 'control_points': arr(pts('P', n, 3)), 'knots': kv(n + 3)})) for n in (3, 5)])
    go('NurbsSurface', [('%d x %d points' % (a_, b), build(m, 'NurbsSurface', {'u_degree': ci(1), 'v_degree': ci(2), 'u_knots': kv(a_ + 2), 'v_knots': put(kv(b + 3), **{kv(1).a[2][0]: arr([arg('h%d' % i) for i in range(b + 3)])}), 'control_points': arr([arr(pts('P%d_' % i, b, 4)) for i in range(a_)])})) for a_, b in ((2, 3), (4, 3))], 4)
    go('BoundingBox', [('box', build(m, 'BoundingBox', {'min': arg('LO'), 'max': arg('HI')}))])
    go('FrenetFrame', [('frame', build(m, 'FrenetFrame', {'position': arg('O'), 'tangent': arg('T'), 'normal': arg('N'), 'binormal': arg('B')}))])
    go('SurfaceTessellation', [('%d points, %d faces' % (n, k), build(m, 'SurfaceTessellation', {'points': arr([arg('p%d' % i) for i in range(n)]), 'normals': arr([arg('n%d' % i) for i in range(n)]), 'uvs': arr([arg('u%d' % i) for i in range(n)]), 'faces': arr([arr([ci(i), ci((i + 1) % n), ci((i + 2) % n)]) for i in range(k)])})) for n, k in ((3, 1), (5, 4), (4, 0))])

def others(ctx):
    m = ctx.m
    fs = m.free('transpose_control_points')
    ts = m.method('NurbsSurface', 'transposed_control_points')
    for nu, nv in ((1, 1), (2, 3), (4, 2), (3, 3)):
        g = arr([arr([arg('P%d_%d' % (i, j)) for j in range(nv)]) for i in range(nu)])
        want = arr([arr([arg('P%d_%d' % (i, j)) for i in range(nu)]) for j in range(nv)])
        if len(fs) == 1: judge(ctx, 'other', '%d x %d points transposed' % (nu, nv), fs[0], run(ctx, fs[0], {fs[0].arg_names.get(1): g}), want, 'return')
        if len(ts) == 1 and nu > 1 and nv > 2:
            o = build(m, 'NurbsSurface', {'u_degree': ci(1), 'v_degree': ci(2), 'u_knots': arg('ku'), 'v_knots': arg('kv'), 'control_points': g})
            if o is not None: judge(ctx, 'other', 'surface of %d x %d points transposed' % (nu, nv), ts[0], run(ctx, ts[0], {ts[0].arg_names.get(1): o}), want, 'return')
    f = pub(ctx, 'elevate_dimension', 'NurbsCurve')
    if f is None: return
    for dim, k in itertools.product((3, 4), range(len(KS))):
        o = crv(m, k, 'P', dim)
        if o is None: continue
        want = mapped(o, lambda p: arr(list(p.a[0][:-1]) + [cf(0.), p.a[0][-1]]))
        judge(ctx, 'other', 'dimension %d raised, degree %d, %d points' % (dim - 1, KS[k][0], KS[k][1]), f, run(ctx, f, {f.arg_names.get(1): o}, dim), want, 'return')
