"""C30 evaluation agrees with the NURBS definition: the evaluation code is interpreted exactly with symbolic control point coordinates and constant
weights, knots and parameters; in every span more parameters are decided than the degree, which fixes the polynomials."""
from asklab import *

def check(ctx):
    ctx.rule('point', 'the point at a parameter is the sum of basis function times weighted control point over the sum of basis function times weight')
    ctx.rule('derivative', 'derivatives follow the quotient rule from the derivatives of the basis functions')
    ctx.rule('basis', 'basis functions and their derivatives are those of the Cox-de Boor recurrence, in the span of the parameter')
    ctx.rule('sample', 'samples are taken at regular parameters, both ends included')
    ctx.rule('surface', 'surface points, derivatives and normals are those of the tensor product')
    ctx.rule('grid', 'regular grids list the values at their own parameters')
    ctx.rule('domain', 'domains, spans, multiplicities and weights are read off the knots and control points')
    ctx.assumptions.append('real arithmetic: rounding is not considered beyond a relative tolerance of 1e-8 on each coefficient')
    curves(ctx); knotfns(ctx); samples(ctx); surfaces(ctx); grids(ctx); domains(ctx)

def curves(ctx):
    m = ctx.m
    pa, ta, sa, pt = [public(ctx, 'NurbsCurve', n) for n in ('point_at', 'tangent_at', 'second_derivative_at', 'point_tangent_at')]
    rd = public(ctx, 'NurbsCurve', 'rational_derivatives', False)
    for k, spec in enumerate(SPECS):
        for dim in (3, 4):
            c = ncurve(m, spec, 'P', dim)
            if c is None: ctx.skip('point', label(spec, k), 'fields changed'); continue
            us = params(*spec)
            if dim == 4: us = us[1::3]
            for u in us:
                at = 'dimension %d, %s, at %g' % (dim - 1, label(spec, k), u)
                C = rational(spec, u, dim, 3)
                if pa: ask(ctx, 'point', 'point_at: ' + at, pa, [c, cf(u)], lambda r: agree(r, C[0]), dim)
                if ta: ask(ctx, 'derivative', 'tangent_at: ' + at, ta, [c, cf(u)], lambda r: agree(r, C[1]), dim)
                if sa: ask(ctx, 'derivative', 'second_derivative_at: ' + at, sa, [c, cf(u)], lambda r: agree(r, C[2]), dim)
                if pt and dim == 4: ask(ctx, 'derivative', 'point_tangent_at: ' + at, pt, [c, cf(u)], lambda r: listed(r, C[:2], agree), dim)
                if rd and dim == 3: ask(ctx, 'derivative', 'three derivatives: ' + at, rd, [c, cf(u), ci(3)], lambda r: listed(r, C, agree), dim)
def knotfns(ctx):
    m = ctx.m
    fi, bf, db, fl, cl = [public(ctx, 'KnotVector', n) for n in ('find_knot_span_index', 'basis_functions', 'derivative_basis_functions', 'find_knot_span_linear', 'clamp')]
    for k, (p, ks) in enumerate(SPECS):
        kv = knots(m, ks)
        n = len(ks) - p - 2
        if kv is None: continue
        for u in params(p, ks):
            at, s = '%s, at %g' % (label((p, ks), k), u), span(p, ks, u)
            if fi: ask(ctx, 'basis', 'find_knot_span_index: ' + at, fi, [kv, ci(n), ci(p), cf(u)], lambda r: scalar(r, s))
            if fl and u < domain(p, ks)[1]: ask(ctx, 'basis', 'find_knot_span_linear: ' + at, fl, [kv, ci(n + 1), ci(p), cf(u)], lambda r: scalar(r, s))
            B = [basis(p, ks, u, d)[s - p:s + 1] for d in range(p + 1)]
            if bf: ask(ctx, 'basis', 'basis_functions: ' + at, bf, [kv, ci(s), cf(u), ci(p)], lambda r: listed(r, B[0], scalar))
            if db: ask(ctx, 'basis', 'derivative_basis_functions: ' + at, db, [kv, ci(s), cf(u), ci(p), ci(p)], lambda r: listed(r, B, lambda x, w: listed(x, w, scalar)))
        lo, hi = domain(p, ks)
        if cl:
            for u in (lo - 3, lo, (lo + hi) / 2, hi, hi + .5): ask(ctx, 'domain', 'clamp: %s, %g' % (label((p, ks), k), u), cl, [kv, ci(p), cf(u)], lambda r: scalar(r, min(max(u, lo), hi)))
def samples(ctx):
    m = ctx.m
    sr, sp = public(ctx, 'NurbsCurve', 'sample_regular_range'), public(ctx, 'NurbsCurve', 'sample_regular_range_with_parameter')
    for k in (1, 3, 5, 6):
        spec = SPECS[k]
        c = ncurve(m, spec)
        if c is None: continue
        lo, hi = domain(*spec)
        for (a, b), n in (((lo, hi), 2), ((lo, hi), 6), ((lo + (hi - lo) * .25, lo + (hi - lo) * .5), 5)):
            us = [a + (b - a) * i / (n - 1) for i in range(n)]
            P = [rational(spec, u, 3, 0)[0] for u in us]
            inst = '%s, %d samples of %g..%g' % (label(spec, k), n, a, b)
            if sr: ask(ctx, 'sample', inst, sr, [c, cf(a), cf(b), ci(n)], lambda r: listed(r, P, agree))
            if sp: ask(ctx, 'sample', inst + ' with parameters', sp, [c, cf(a), cf(b), ci(n)], lambda r: listed(r, list(zip(us, P)), lambda x, w: every([scalar(x.a[0][0], w[0]), agree(x.a[0][1], w[1])]) if x.k in ('tup', 'arr') and len(x.a[0]) == 2 else None))
def table(r, S, n):
    """nested derivative lists against S"""
    if r is None or r.k != 'arr' or len(r.a[0]) <= n and len(r.a[0]) != n + 1: return None
    out = []
    for k in range(n + 1):
        row = r.a[0][k]
        if row.k != 'arr' or len(row.a[0]) < n + 1 - k: return None
        out += [agree(row.a[0][l], S[k, l]) for l in range(n + 1 - k)]
    return every(out)
PAIRS = [(0, 2), (3, 1), (2, 5), (4, 3), (6, 2)]
def inside(spec, n): return params(*spec, per=n)
def cross(a, b):
    """cross product as polynomial forms {(x, y): c}"""
    def mul(f, g, s, r):
        for x, c in f.items():
            for y, d in g.items():
                k = tuple(sorted((x, y))); r[k] = r.get(k, 0) + s * c * d
    out = []
    for i, j in ((1, 2), (2, 0), (0, 1)):
        r = {}
        mul(a[i], b[j], 1, r); mul(a[j], b[i], -1, r)
        out.append({k: v for k, v in r.items() if v})
    return out
def bilinear(t):
    try: n, d = (N := Norm()).rat(t)
    except OverflowError: return None
    c = d.get(())
    if c is None or len(d) != 1: return None
    r = {}
    for k, v in n.items():
        if sum(e for _, e in k) > 2: return None
        nm = [N.atoms[x].a[0] for x, e in k for _ in range(e) if N.atoms[x].k == 'arg']
        if len(nm) != sum(e for _, e in k): return None
        r[tuple(sorted(nm + [''] * (2 - len(nm))))] = v / c
    return r
def agree2(t, want):
    if t.k == 'call' and t.a[0].split('::')[-1] in ('normalize', 'unit'): t = t.a[1][0]
    v = vecof(t)
    if v is None or len(v) != 3: return None
    fs = [bilinear(x) for x in v]
    if None in fs: return None
    return all(close(f, w, 1e-7) for f, w in zip(fs, want))
def crossing(I, st, name, info, a):
    if info['name'] == 'cross' and len(a) == 2:
        x, y = vecof(I.value(st, a[0])), vecof(I.value(st, a[1]))
        if x and y and len(x) == len(y) == 3:
            return [(st, arr([op('Sub', op('Mul', x[i], y[j]), op('Mul', x[j], y[i])) for i, j in ((1, 2), (2, 0), (0, 1))]))]
    if info['name'] == 'normalize' and len(a) == 1: return [(st, mk('call', 'normalize', (I.value(st, a[0]),)))]
    return None
def surfaces(ctx):
    m = ctx.m
    pa, rd, no = [public(ctx, 'NurbsSurface', n) for n in ('point_at', 'rational_derivatives', 'normal_at')]
    for a, b in PAIRS:
        s = nsurf(m, a, b)
        if s is None: ctx.skip('surface', 'surface', 'fields changed'); continue
        us, vs = inside(SPECS[a], 2), inside(SPECS[b], 2)
        for n, (u, v) in enumerate((u, v) for i, u in enumerate(us) for j, v in enumerate(vs) if (i + j) % 2 == 0 or len(us) * len(vs) < 12):
            at = 'degrees %d, %d, at (%g, %g)' % (SPECS[a][0], SPECS[b][0], u, v)
            S = srational(a, b, u, v, 2)
            if pa: ask(ctx, 'surface', 'point_at: ' + at, pa, [s, cf(u), cf(v)], lambda r: agree(r, S[0, 0]), 4)
            if rd and n % 3 == 0: ask(ctx, 'surface', 'two derivatives: ' + at, rd, [s, cf(u), cf(v), ci(2)], lambda r: table(r, S, 2), 4)
            if rd and n % 3 == 1: ask(ctx, 'surface', 'first derivatives: ' + at, rd, [s, cf(u), cf(v), ci(1)], lambda r: table(r, S, 1), 4)
            if no and n % 7 == 2: ask(ctx, 'surface', 'normal_at: ' + at, no, [s, cf(u), cf(v)], lambda r: agree2(r, cross(S[1, 0], S[0, 1])), 4, more=crossing)
def grids(ctx):
    m = ctx.m
    sp, sn, sr, sd = [public(ctx, 'NurbsSurface', 'regular_sample_' + n) for n in ('points', 'normals', 'rational_derivatives', 'derivatives')]
    rt = public(ctx, 'NurbsSurface', 'regular_tessellate')
    for (a, b), (nu, nv) in (((0, 2), (2, 1)), ((3, 1), (3, 4)), ((2, 5), (1, 4)), ((3, 1), (1, 2)), ((6, 2), (2, 2))):
        s = nsurf(m, a, b)
        if s is None: continue
        (u0, u1), (v0, v1) = domain(*SPECS[a]), domain(*SPECS[b])
        us, vs = [u0 + (u1 - u0) * i / nu for i in range(nu + 1)], [v0 + (v1 - v0) * i / nv for i in range(nv + 1)]
        S = [[srational(a, b, u, v, 1) for v in vs] for u in us]
        inst = 'degrees %d, %d, %d x %d' % (SPECS[a][0], SPECS[b][0], nu, nv)
        rows = lambda cmp: lambda r: listed(r, S, lambda x, w: listed(x, w, cmp))
        kw = dict(t=40, unroll=120)
        if nu * nv < 4 and sr:
            S2 = [[srational(a, b, u, v, 2) for v in vs] for u in us]
            ask(ctx, 'grid', 'second derivatives: ' + inst, sr, [s, ci(nu), ci(nv), ci(2)], lambda r: listed(r, S2, lambda x, w: listed(x, w, lambda y, z: table(y, z, 2))), 4, **kw)
        if sp: ask(ctx, 'grid', 'points: ' + inst, sp, [s, ci(nu), ci(nv)], rows(lambda x, w: agree(x, w[0, 0])), 4, **kw)
        if sr: ask(ctx, 'grid', 'rational derivatives: ' + inst, sr, [s, ci(nu), ci(nv), ci(1)], rows(lambda x, w: table(x, w, 1)), 4, **kw)
        if sd:
            H = [[{(k, l): (lambda h: h[0] + [h[1]])(shom(a, b, u, v, k, l)) for k in range(2) for l in range(2 - k)} for v in vs] for u in us]
            ask(ctx, 'grid', 'derivatives: ' + inst, sd, [s, ci(nu), ci(nv), ci(1)], lambda r: listed(r, H, lambda x, w: listed(x, w, lambda y, z: table(y, z, 1))), 4, **kw)
        if nu * nv <= 4:
            if sn: ask(ctx, 'grid', 'normals: ' + inst, sn, [s, ci(nu), ci(nv)], rows(lambda x, w: agree2(x, cross(w[1, 0], w[0, 1]))), 4, more=crossing, **kw)
        if rt:
            def mesh(r):
                if r.k != 'adt' or not {'points', 'uvs', 'faces'} <= set(r.a[2]): return None
                pt, uv, fc = fld(r, 'points'), fld(r, 'uvs'), fld(r, 'faces')
                flat = [(u, v, S[i][j][0, 0]) for i, u in enumerate(us) for j, v in enumerate(vs)]
                if uv.k != 'arr' or pt.k != 'arr': return None
                return every([listed(pt, [f[2] for f in flat], agree), listed(uv, [f[:2] for f in flat], agree)])
            ask(ctx, 'grid', 'mesh: ' + inst, rt, [s, ci(nu), ci(nv)], mesh, 4, more=crossing, **kw)
def domains(ctx):
    m = ctx.m
    dc, di, kc, nk, we, dp = [public(ctx, 'NurbsCurve', n) for n in ('knots_domain', 'knots_domain_interval', 'knots_constrain', 'normalize_knots', 'weights', 'dehomogenized_control_points')]
    fp, ep = public(ctx, 'NurbsCurve', 'first_point'), public(ctx, 'NurbsCurve', 'end_point')
    mu, ic, fo = [public(ctx, 'KnotVector', n) for n in ('multiplicity', 'is_clamped', 'floor')]
    for k, spec in enumerate(SPECS):
        p, ks = spec
        c, kv, at = ncurve(m, spec), knots(m, ks), label(spec, k)
        if c is None: continue
        lo, hi = domain(p, ks)
        n = len(ks) - p - 1
        if dc: ask(ctx, 'domain', 'knots_domain: ' + at, dc, [c], lambda r: listed(r, (lo, hi), scalar))
        if di: ask(ctx, 'domain', 'knots_domain_interval: ' + at, di, [c], lambda r: scalar(r, hi - lo))
        if kc:
            for u in (lo - 1, (lo + hi) / 2, hi + 2): ask(ctx, 'domain', 'knots_constrain: %s, %g' % (at, u), kc, [c, cf(u)], lambda r: scalar(r, min(max(u, lo), hi)))
        if we: ask(ctx, 'domain', 'weights: ' + at, we, [c], lambda r: listed(r, [weight(i) for i in range(n)], scalar))
        if dp: ask(ctx, 'domain', 'dehomogenized_control_points: ' + at, dp, [c], lambda r: listed(r, [[{'P%d_%d' % (i, x): 1 / Q(weight(i))} for x in range(2)] for i in range(n)], agree))
        if fp: ask(ctx, 'domain', 'first_point: ' + at, fp, [c], lambda r: agree(r, rational(spec, lo, 3, 0)[0]))
        if ep: ask(ctx, 'domain', 'end_point: ' + at, ep, [c], lambda r: agree(r, rational(spec, hi, 3, 0)[0]))
        if nk:
            outs = evaluate(ctx, nk, dict(zip(names(nk), [c])), 3)
            for fs, me, r in outs or []:
                g = knots_of(fld(me, 'knots')) if me is not None and me.k == 'adt' else None
                if fs or g is None: ctx.skip('domain', 'normalize_knots: ' + at, 'not interpreted'); continue
                ctx.ob('domain', 'normalize_knots: ' + at, len(g) == len(ks) and all(abs(x - (y - lo) / (hi - lo)) < 1e-9 for x, y in zip(g, ks)) and fld(me, 'control_points') is fld(c, 'control_points'), nk.span, 'knots %s' % g)
        if mu:
            want = [(x, ks.count(x)) for x in sorted(set(ks))]
            ask(ctx, 'domain', 'multiplicity: ' + at, mu, [kv], lambda r: listed(r, want, lambda x, w: every(scalar(y, z) for y, z in zip(x.a[3], w)) if x.k == 'adt' and len(x.a[3]) == 2 else None))
        if ic: ask(ctx, 'domain', 'is_clamped: ' + at, ic, [kv, ci(p)], lambda r: scalar(r, int(ks.count(ks[0]) > p and ks.count(ks[-1]) > p)))
        if fo:
            for u in (ks[0] - 1, ks[0], (lo + hi) / 2 + .01, ks[-1] + 1):
                i = max([j for j, x in enumerate(ks) if x <= u], default=None)
                ask(ctx, 'domain', 'floor: %s, %g' % (at, u), fo, [kv, cf(u)], lambda r: (is_adt(r, OPT, 'None') if i is None else is_adt(r, OPT, 'Some') and scalar(r.a[3][0], i)) if r.k == 'adt' else None)
    if ic:
        for p, ks in ((2, [0., 0., 0., 1., 2., 3., 4.]), (2, [0., 1., 2., 3., 3., 3.]), (1, [0., 0., 1., 2.]), (1, [0., 0., 0., 1., 1.])):
            kv = knots(m, ks)
            ask(ctx, 'domain', 'is_clamped: degree %d, %s' % (p, ks), ic, [kv, ci(p)], lambda r: scalar(r, int(ks.count(ks[0]) > p and ks.count(ks[-1]) > p)))
    sd = [public(ctx, 'NurbsSurface', n) for n in ('u_knots_domain', 'v_knots_domain', 'knots_domain', 'knots_domain_interval')]
    at_ = public(ctx, 'NurbsSurface', 'knots_domain_at')
    dp = public(ctx, 'NurbsSurface', 'dehomogenized_control_points')
    for a, b in PAIRS:
        s = nsurf(m, a, b)
        if s is None: continue
        D = (domain(*SPECS[a]), domain(*SPECS[b])); nm = 'degrees %d, %d' % (SPECS[a][0], SPECS[b][0])
        pair = lambda w: lambda r: listed(r, w, scalar)
        for f, w in zip(sd[:2], D):
            if f: ask(ctx, 'domain', '%s: %s' % (f.name, nm), f, [s], pair(w))
        if sd[2]: ask(ctx, 'domain', 'knots_domain: ' + nm, sd[2], [s], lambda r: listed(r, D, lambda x, w: listed(x, w, scalar)))
        if sd[3]: ask(ctx, 'domain', 'knots_domain_interval: ' + nm, sd[3], [s], pair([y - x for x, y in D]))
        if at_:
            for v, w in (('U', D[0]), ('V', D[1])):
                d = unit_adt(m, 'UVDirection', v)
                if d is not None: ask(ctx, 'domain', 'knots_domain_at %s: %s' % (v, nm), at_, [s, d], pair(w))
        if dp:
            nu, nv = [len(fld(s, 'control_points').a[0]), len(fld(s, 'control_points').a[0][0].a[0])]
            want = [[[{'P%d_%d_%d' % (i, j, x): 1 / Q(weight(i * nv + 2 * j + i))} for x in range(3)] for j in range(nv)] for i in range(nu)]
            ask(ctx, 'domain', 'surface dehomogenized_control_points: ' + nm, dp, [s], lambda r: listed(r, want, lambda x, w: listed(x, w, agree)), 4)
    compound(ctx)
def compound(ctx):
    m = ctx.m
    pa, fp, ep = [public(ctx, 'CompoundCurve', n) for n in ('point_at', 'first_point', 'end_point')]
    sp, at = [], 1.
    for i, k in enumerate((2, 3, 5)):
        p, ks = SPECS[k]
        sp.append((p, [x - ks[0] + at for x in ks])); at = sp[-1][1][-1]
    cs = [ncurve(m, s, 'ABC'[i]) for i, s in enumerate(sp)]
    o = build(m, 'CompoundCurve', {'spans': arr(cs)}) if None not in cs else None
    if o is None: return ctx.skip('domain', 'compound curve', 'fields changed')
    for i, s in enumerate(sp):
        lo, hi = s[1][0], s[1][-1]
        for u in [lo + (hi - lo) * x for x in ((.25, .5, .875) if i else (0., .25, .875))] + ([hi] if i == 2 else []):
            want = rational(s, u, 3, 0, tag='ABC'[i])[0]
            if pa: ask(ctx, 'point', 'compound point_at %g' % u, pa, [o, cf(u)], lambda r: agree(r.a[3][0], want) if is_adt(r, OPT, 'Some') else False if is_adt(r, OPT, 'None') else None)
    for u in (0.5, at + 1):
        if pa: ask(ctx, 'point', 'compound point_at %g' % u, pa, [o, cf(u)], lambda r: is_adt(r, OPT, 'None') if r.k == 'adt' else None)
    if fp: ask(ctx, 'domain', 'compound first_point', fp, [o], lambda r: agree(r, rational(sp[0], sp[0][1][0], 3, 0, tag='A')[0]))
    if ep: ask(ctx, 'domain', 'compound end_point', ep, [o], lambda r: agree(r, rational(sp[2], sp[2][1][-1], 3, 0, tag='C')[0]))
