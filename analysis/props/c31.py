"""C31 knot insertion, refinement, removal, degree elevation and splitting keep the shape: the code is interpreted exactly with symbolic control points;
the resulting control points are linear forms, and both splines agree at more parameters than the degree in every span, which decides the polynomials."""
from asklab import *
from refinelab import *

EXTRA = [(3, [0., 1., 2., 3., 4., 5., 6., 7., 8.]), (2, [0., 0., 1., 2., 3., 3., 4.])]
ALL = SPECS + EXTRA
def check(ctx):
    ctx.rule('insert', 'inserting one knot keeps the curve')
    ctx.rule('refine', 'inserting several knots keeps the curve and adds exactly these knots')
    ctx.rule('remove', 'removing a knot keeps the curve (within the tolerance), removes as often as possible and no oftener, and reports how often')
    ctx.rule('elevate', 'raising the degree keeps the curve')
    ctx.rule('clamp', 'clamping keeps the curve and its domain')
    ctx.rule('bezier', 'the Bezier pieces are the spans of the curve, in order')
    ctx.rule('split', 'splitting gives the parts of the curve or surface on both sides of the parameter')
    ctx.rule('trim', 'trimming gives the part of the curve inside of the range')
    ctx.rule('surface', 'inserting knots into a surface keeps the surface')
    ctx.rule('isocurve', 'isocurves and boundary curves lie on the surface at the given parameter')
    ctx.assumptions.append('real arithmetic: rounding is not considered beyond a relative tolerance of 1e-6 on each coefficient')
    curves(ctx); removal(ctx); pieces(ctx); surfaces(ctx); isocurves(ctx)

def results(ctx, rule, inst, f, args, D=3, **kw):
    """final self and Ok payload of every outcome"""
    outs = evaluate(ctx, f, dict(zip(names(f), args)), D, **kw)
    if outs is None: ctx.skip(rule, inst, 'not interpreted'); return []
    if not outs: ctx.ob(rule, inst, False, f.span, '%s panics' % inst); return []
    for fs, me, r in outs:
        if fs: ctx.skip(rule, inst, showf(fs, 3)[:90])
    return [(me, ok_of(r)) for fs, me, r in outs if not fs]
def decide(ctx, rule, inst, f, d, shown):
    """d: '' same, None undecided, else the difference"""
    if d is None: return ctx.skip(rule, inst, show(shown, 4)[:120] if shown is not None and shown != 'err' else str(shown))
    ctx.ob(rule, inst, d == '', f.span, '%s %s' % (inst, d)); ctx.count('splines compared')
def added(t, ks, us):
    x = read(t)
    return '' if x is None or sorted(x[0][1]) == sorted(ks + us) else 'has knots %s after inserting %s into %s' % (x[0][1], us, ks)
def inserts(spec):
    p, ks = spec
    lo, hi = domain(p, ks)
    mid = sorted({x for x in ks if lo < x < hi})
    w = hi - lo
    out = [[lo + w * .3], [lo + w * .3] * 2, [lo + w * .3, lo + w * .4, lo + w * .9], [lo], [hi], [lo + w * .5] * (p + 1)]
    if mid: out += [mid[:1], [mid[-1]] * 2, [lo + w * .01] + mid[:1] + [hi - w * .01]]
    return [sorted(x) for x in out]
def curves(ctx):
    m = ctx.m
    add, ref, cl, el = [public(ctx, 'NurbsCurve', n) for n in ('try_add_knot', 'try_refine_knot', 'try_clamp', 'try_elevate_degree')]
    for k, spec in enumerate(ALL):
        p, ks = spec
        lo, hi = domain(p, ks)
        for dim in (3, 4) if k in (3, 5) else (3,):
            c = ncurve(m, spec, 'P', dim)
            if c is None: ctx.skip('insert', label(spec, k), 'fields changed'); continue
            F = refforms(spec, dim=dim)
            at = label(spec, k) + (', dimension 3' if dim == 4 else '')
            clamped = ks[0] == lo and ks[-1] == hi
            if add:
                for u in sorted({x for x in ks if lo <= x <= hi} | {lo + (hi - lo) * .3, lo + (hi - lo) * .8}):
                    for me, r in results(ctx, 'insert', 'insert %g: %s' % (u, at), add, [c, cf(u)], dim):
                        decide(ctx, 'insert', 'insert %g: %s' % (u, at), add, same_curve(me if r is UNIT else r, spec, F, full=lo < u < hi) or (r is UNIT and added(me, ks, [u])) or ('' if r is UNIT else None), me)
            if ref:
                for us in inserts(spec):
                    inst = 'refine by %s: %s' % (', '.join('%g' % u for u in us), at)
                    for me, r in results(ctx, 'refine', inst, ref, [c, arr([cf(u) for u in us])], dim):
                        decide(ctx, 'refine', inst, ref, same_curve(me if r is UNIT else r, spec, F, full=lo < min(us) and max(us) < hi) or added(me, ks, us), me)
            if cl:
                for me, r in results(ctx, 'clamp', 'clamp: ' + at, cl, [c], dim):
                    x = read(me)
                    d = same_curve(me if r is UNIT else r, spec, F)
                    if d == '' and not (x[0][1][:p + 1] == [lo] * (p + 1) and x[0][1][-p - 1:] == [hi] * (p + 1)): d = 'is not clamped: %s' % x[0][1]
                    decide(ctx, 'clamp', 'clamp: ' + at, cl, d, me)
            if el:
                for e in (0, 1, 2) if dim == 3 else (1,):
                    for me, r in results(ctx, 'elevate', 'elevate by %d: %s' % (e, at), el, [c, ci(p + e)], dim, t=60):
                        x = read(r) if isinstance(r, T) else None
                        d = same_curve(r, spec, F)
                        if d == '' and x[0][0] != p + e: d = 'has degree %d' % x[0][0]
                        decide(ctx, 'elevate', 'elevate by %d: %s' % (e, at), el, d, r)
def generic(I, st, name, info, a):
    """control points in general position: a distance is zero only when it is zero identically"""
    if info['name'] in ('norm', 'magnitude', 'norm_squared', 'magnitude_squared') and len(a) == 1:
        v = bare(I.value(st, a[0]))
        if v.k == 'arr':
            F = [lin(x) for x in v.a[0]]
            if None not in F: return [(st, cf(0. if all(close(f, {}, 1e-9) for f in F) else 1.))]
    return None
def removal(ctx):
    m = ctx.m
    f = public(ctx, 'NurbsCurve', 'try_remove_knot')
    if not f: return
    for k, spec in enumerate(SPECS):
        p, ks = spec
        lo, hi = domain(p, ks)
        mid = sorted({x for x in ks if lo < x < hi})
        for u, has in [(lo + (hi - lo) * .3, 0)] + [(x, ks.count(x)) for x in mid]:
            for n in range(0 if has else 1, p + 2 - has):
                c, F, cur = inserted(m, spec, [u] * n)
                inst = 'remove %g inserted %s: %s' % (u, ('once', 'twice', '%d times' % n)[min(n - 1, 2)] if n else 'never', label(spec, k))
                for me, r in results(ctx, 'remove', inst, f, [c, cf(u), NONE], more=generic):
                    cnt = numeric(r) if isinstance(r, T) else None
                    x = read(me)
                    edge = ks[p] == ks[0] and cur.index(u) <= p or ks[-1] == ks[-1 - p] and len(cur) - 1 - cur[::-1].index(u) >= len(cur) - 1 - p
                    if r == 'err' and (edge or ks[0] != lo): d = same_curve(me, spec)
                    else:
                        d = same_curve(me if cnt is not None else r, spec)
                        if d == '' and x[0][1].count(u) != has: d = 'leaves the knot %d times instead of %d' % (x[0][1].count(u), has)
                        if d == '' and cnt != n: d = 'reports %d removals instead of %d' % (cnt, n)
                    decide(ctx, 'remove', inst, f, d, me)
def inserted(m, spec, us):
    """curve value after inserting us (by the definition: blossoms), its forms and knots"""
    p, ks = spec
    F = refforms(spec)
    for u in us:
        s = max(i for i in range(len(ks)) if ks[i] <= u)
        G = []
        for i in range(len(F) + 1):
            if i <= s - p: G.append(F[i])
            elif i > s - ks.count(u): G.append(F[i - 1])
            else:
                a = (Q(u) - Q(ks[i])) / (Q(ks[i + p]) - Q(ks[i]))
                G.append([ladd(lmul(x, a), lmul(y, 1 - a)) for x, y in zip(F[i], F[i - 1])])
        F, ks = G, sorted(ks + [u])
    return curve(m, p, ks, [arr([term(x) for x in q]) for q in F]), F, ks
def term(f):
    t = cf(float(f.get('', 0)))
    for k, v in sorted(f.items()):
        if k and v: t = fold('Add', t, op('Mul', cf(float(v)), arg(k)))
    return t
def pieces(ctx):
    m = ctx.m
    be, sp, tr = public(ctx, 'NurbsCurve', 'try_decompose_bezier_segments'), public(ctx, 'NurbsCurve', 'try_split'), public(ctx, 'NurbsCurve', 'try_trim_range')
    for k, spec in enumerate(ALL):
        p, ks = spec
        lo, hi = domain(p, ks)
        c = ncurve(m, spec)
        if c is None: continue
        at = label(spec, k)
        spans = [(a, b) for a, b in zip(ks, ks[1:]) if lo <= a < b <= hi]
        if be:
            for me, r in results(ctx, 'bezier', 'Bezier pieces: ' + at, be, [c], t=60): decide(ctx, 'bezier', 'Bezier pieces: ' + at, be, several(r, spec, spans, True), r)
        if sp:
            for u in sorted({x for x in ks if lo < x < hi} | {lo + (hi - lo) * .3, lo + (hi - lo) * .8}):
                for me, r in results(ctx, 'split', 'split at %g: %s' % (u, at), sp, [c, cf(u)]): decide(ctx, 'split', 'split at %g: %s' % (u, at), sp, several(r, spec, [(lo, u), (u, hi)]), r)
        if tr:
            for a, b in (((lo * 2 + hi) / 3, (lo + hi * 3) / 4), (lo, (lo + hi) / 2), ((lo + hi) / 2, hi)):
                inst = 'trim to %g..%g: %s' % (a, b, at)
                for me, r in results(ctx, 'trim', inst, tr, [c, tup(cf(a), cf(b))]): decide(ctx, 'trim', inst, tr, several(r, spec, [(a, b)]), r)
def several(r, spec, ranges, bezier=False):
    if r is None or r == 'err': return None if r is None else 'gives an error'
    if r.k not in ('arr', 'tup'): return None
    if len(r.a[0]) != len(ranges): return 'gives %d pieces instead of %d' % (len(r.a[0]), len(ranges))
    for x, (a, b) in zip(r.a[0], ranges):
        d = same_curve(x, spec, None, a, b)
        if d == '' and bezier:
            (p, ks), F = read(x)
            if len(F) != p + 1: d = 'has a piece of %d control points' % len(F)
        if d != '': return d
    return ''
PAIRS = [(0, 2), (3, 1), (2, 5), (4, 3), (6, 2)]
def surfaces(ctx):
    m = ctx.m
    ref, sp = public(ctx, 'NurbsSurface', 'try_refine_knot'), public(ctx, 'NurbsSurface', 'try_split')
    for a, b in PAIRS:
        A, B = SPECS[a], SPECS[b]
        s = nsurf(m, a, b)
        if s is None: ctx.skip('surface', 'surface', 'fields changed'); continue
        for w, spec in (('U', A), ('V', B)):
            d = unit_adt(m, 'UVDirection', w)
            lo, hi = domain(*spec)
            at = '%s, degrees %d, %d, knots #%d, #%d' % (w, A[0], B[0], a, b)
            if ref:
                for us in inserts(spec)[1:6:2] + inserts(spec)[6:7]:
                    inst = 'refine by %s in %s' % (', '.join('%g' % u for u in us), at)
                    for me, r in results(ctx, 'surface', inst, ref, [s, arr([cf(u) for u in us]), d], 4, t=60):
                        x = readsurf(me) if r is UNIT else None
                        v = same_surface(me if r is UNIT else r, A, B, full=lo < min(us) and max(us) < hi)
                        if v == '' and x[w == 'V'][1] != sorted(spec[1] + us): v = 'has %s knots %s' % (w, x[w == 'V'][1])
                        decide(ctx, 'surface', inst, ref, v, me)
            if sp:
                for u in sorted({x for x in spec[1] if lo < x < hi} | {lo + (hi - lo) * .3}):
                    o = build(m, 'SplitSurfaceOption', {'parameter': cf(u), 'direction': d})
                    inst = 'split at %g in %s' % (u, at)
                    if o is None: ctx.skip('split', inst, 'fields changed'); continue
                    for me, r in results(ctx, 'split', inst, sp, [s, o], 4, t=60):
                        v = None if r is None else 'gives an error' if r == 'err' else None if r.k not in ('tup', 'arr') or len(r.a[0]) != 2 else ''
                        if v == '':
                            for x, rg in zip(r.a[0], ((lo, u), (u, hi))):
                                v = same_surface(x, A, B, rg if w == 'U' else None, rg if w == 'V' else None)
                                if v != '': break
                        decide(ctx, 'split', inst, sp, v, r)
def iso(a, b, u, w):
    """spec and forms of the isocurve of SPECS a, b at u"""
    A, B = SPECS[a], SPECS[b]
    R = refrows(A, B)
    if w == 'U': return B, [combine(basis(A[0], A[1], u), [r[j] for r in R]) for j in range(len(R[0]))]
    return A, [combine(basis(B[0], B[1], u), r) for r in R]
def isocurves(ctx):
    m = ctx.m
    f, g = public(ctx, 'NurbsSurface', 'try_isocurve'), public(ctx, 'NurbsSurface', 'try_boundary_curves')
    for a, b in PAIRS:
        s = nsurf(m, a, b)
        if s is None: ctx.skip('isocurve', 'surface', 'fields changed'); continue
        ends = [domain(*SPECS[a]), domain(*SPECS[b])]
        if f:
            for w, spec in (('U', SPECS[a]), ('V', SPECS[b])):
                lo, hi = domain(*spec)
                for u in sorted({x for x in spec[1] if lo <= x <= hi} | {lo + (hi - lo) * .3}):
                    inst = 'isocurve at %g in %s, degrees %d, %d, knots #%d, #%d' % (u, w, SPECS[a][0], SPECS[b][0], a, b)
                    for me, r in results(ctx, 'isocurve', inst, f, [s, cf(u), unit_adt(m, 'UVDirection', w)], 4, t=60): decide(ctx, 'isocurve', inst, f, same_curve(r, *iso(a, b, u, w)), r)
        if g:
            inst = 'boundary curves, degrees %d, %d, knots #%d, #%d' % (SPECS[a][0], SPECS[b][0], a, b)
            for me, r in results(ctx, 'isocurve', inst, g, [s], 4, t=60):
                v = None if r is None else 'gives an error' if r == 'err' else None if r.k not in ('tup', 'arr') else '' if len(r.a[0]) == 4 else 'are %d' % len(r.a[0])
                if v == '':
                    for x, (i, w) in zip(r.a[0], ((0, 'U'), (0, 'V'), (1, 'U'), (1, 'V'))):
                        v = same_curve(x, *iso(a, b, ends[w == 'V'][i], w))
                        if v != '': break
                decide(ctx, 'isocurve', inst, g, v, r)
