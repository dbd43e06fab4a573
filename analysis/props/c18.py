"""C18 splitting and trimming: abstract interpretation of the split and trim code on curves with one knot vector per order type and symbolic
control points; the pieces are compared with the parts of the refined curve."""
from curvelab import *

def check(ctx):
    ctx.rule('split curve', 'splitting a curve refines a copy at the clamped parameter and returns the knots and refined control points before it, then those after it, each ending with degree + 1 copies of the parameter')
    ctx.rule('split surface', 'splitting a surface splits every row of control points in the requested direction in that way and keeps the other direction')
    ctx.rule('trim curve', 'trimming a curve with ascending parameters returns the part between them; with descending parameters the part after the first, then the part before the second')
    ctx.rule('trim compound', 'trimming a compound curve returns, in the order of its spans, exactly the parts inside the range (ascending) or outside it (descending)')
    ctx.assumptions.append('try_refine_knot inserts the knots it is given and keeps the shape (C31); find_knot_span_index is interpreted as written; knot values stand for their order type')
    split_curve(ctx); split_surface(ctx); trim_curve(ctx); trim_compound(ctx)

def impls(ctx, nm, ty): return [g for g in ctx.m.fns.values() if g.name == nm and (g.self_adt() or '').endswith('::' + ty)]
def one_impl(ctx, nm, ty):
    fs = impls(ctx, nm, ty)
    if len(fs) == 1: return fs[0]
    ctx.anchor_missing('%s::%s' % (ty, nm))

CASES = [(1, [0, 0, 1, 2, 3, 3]), (2, [0, 0, 0, 1, 1, 2, 3, 3, 3]), (2, [0, 0, 0, 4, 4, 4]), (3, [0, 0, 0, 0, 1, 2, 2, 4, 4, 4, 5, 5, 5, 5]), (2, [0, 1, 2, 3, 4, 5, 6]), (3, [-1, -1, 0, 1, 2, 2, 3, 4, 5, 5])]
def params(p, ks):
    lo, hi = ks[p], ks[-p - 1]
    inner = sorted({k for k in ks if lo < k < hi})
    pts = [lo] + inner + [hi]
    mids = [(a + b) / 2 for a, b in zip(pts, pts[1:])]
    return [(lo - 1, 'below the domain'), (lo, 'at the start')] + [(x, 'inside a span') for x in mids] + [(x, 'at an interior knot of multiplicity %d' % ks.count(x)) for x in inner] + [(hi, 'at the end'), (hi + 1, 'above the domain')]

def expected(p, ks, base, ins, u):
    """(head knots, head points, tail knots, tail points) for the curve whose copy was refined by ins"""
    tot = sorted(ks + ins)
    q, start = tot.count(u), sum(1 for k in tot if k < u)
    R = [refined(base, None, ins, j) for j in range(len(base) + len(ins))]
    return ([k for k in tot if k < u] + [u] * (p + 1), R[:start], [u] * (p + 1) + [k for k in tot if k > u], R[max(0, start + q - p - 1):], q, start)

def run(ctx, f, args, over, t=30):
    def inl(g): return True if g.span.startswith(('src/split', 'src/trim', 'src/knot', 'src/misc', 'src/curve', 'src/surface')) else None
    def opq(g): return True if g.name in ('try_refine_knot', 'try_add_knot') else None
    I = engine(ctx, inline=inl, opaque=opq)
    I.unroll, I.budget, I.t_end, I.exact, I.cap = 64, 200000, time.time() + t, True, 400
    def ov(I, st, name, info, a):
        nm = info['name']
        e = eps_over(nm, a)
        if e is not None: return [(st, e)]
        r = refine_over(I, st, nm, a)
        if r is not None: return r
        return over(I, st, nm, [I.value(st, x) for x in a]) if over else None
    I.override = ov
    try: return [(s.f, r) for s, r in I.auto(f, args)]
    except Budget: return None

def judge(ctx, rule, inst, f, p, ks, base, u, where, pieces, rows=None):
    """compare one pair of explicit curves with the split of (p, ks, base) at u"""
    lo, hi = ks[p], ks[-p - 1]
    uc = min(max(u, lo), hi)
    got = [curve_parts(x) for x in pieces]
    if None in got: return ctx.skip(rule, inst, show(pieces[0], 2)[:60] + show(pieces[1], 2)[:60])
    ins = None
    for g in got:
        for c in g[2]:
            if c.k == 'call' and c.a[0] == 'refined': ins = numbers(c.a[1][1])
    ins = ins or []
    if any(x != uc for x in ins): return ctx.ob(rule, inst, False, f.span, 'the copy is refined at %s instead of %s' % (ins, uc))
    hk, hp, tk, tp, q, start = expected(p, ks, base, ins, uc)
    for i, (nm, k, c, skip) in enumerate((('part before', hk, hp, uc == lo), ('part after', tk, tp, uc == hi))):
        if skip: continue        # a part without extent
        d, gk, gc = got[i]
        ctx.ob(rule, inst + ' ' + nm, d == p, f.span, 'the degree of the %s is %d instead of %d' % (nm, d, p))
        ctx.ob(rule, inst + ' ' + nm, gk == k, f.span, 'split %s: the knots of the %s are %s instead of %s' % (where, nm, gk, k))
        if q >= p: ctx.ob(rule, inst + ' ' + nm, gc == c, f.span, 'split %s: the %s has the control points %s instead of %s' % (where, nm, [show(x, 2) for x in gc][:6], [show(x, 2) for x in c][:6]))
        else: ctx.ob(rule, inst + ' ' + nm, False, f.span, 'split %s: only %d knots at the split position' % (where, q))

def split_curve(ctx):
    m = ctx.m
    f = one_impl(ctx, 'try_split', 'NurbsCurve')
    if not f: return
    for p, ks in CASES:
        ks = [float(k) for k in ks]
        base = [arg('P%d' % i) for i in range(len(ks) - p - 1)]
        me = curve(m, p, ks, base)
        if me is None: return ctx.skip('split curve', 'curve', 'fields changed')
        for u, where in params(p, ks):
            u = float(u)
            outs = run(ctx, f, {f.arg_names.get(1): me, f.arg_names.get(2): cf(u)}, None)
            inst = 'degree %d knots %s at %s' % (p, ks, u)
            if outs is None: ctx.skip('split curve', inst, 'budget'); continue
            for fs, r in outs:
                if fs: ctx.skip('split curve', inst, showf(fs, 3)[:80]); continue
                if is_adt(r, RES, 'Err'):
                    if ks[p] < u < ks[-p - 1]: ctx.ob('split curve', inst, False, f.span, 'splitting %s fails' % where)
                    continue
                v = r.a[3][0] if is_adt(r, RES, 'Ok') else None
                if v is None or v.k != 'tup' or len(v.a[0]) != 2: ctx.skip('split curve', inst, show(r, 3)[:80]); continue
                judge(ctx, 'split curve', inst, f, p, ks, base, u, where, v.a[0])
                ctx.count('curve splits')

def split_surface(ctx):
    m = ctx.m
    f = one_impl(ctx, 'try_split', 'NurbsSurface')
    if not f: return
    for d in ('U', 'V'):
        for pu, ku, pv, kv in ((1, [0, 0, 1, 2, 2], 2, [5, 5, 5, 6, 6, 7, 7, 7]), (2, [0, 0, 0, 1, 3, 3, 3], 1, [5, 5, 6, 7, 7]), (2, [0, 0, 0, 1, 3, 3, 3], 2, [5, 5, 5, 6, 7, 7, 7]), (2, [0, 0, 0, 1, 3, 3, 3], 1, [5, 5, 5.5, 6, 6.5, 7, 7])):
            ku, kv = [float(x) for x in ku], [float(x) for x in kv]
            nu, nv = len(ku) - pu - 1, len(kv) - pv - 1
            P = [[arg('P%d_%d' % (i, j)) for j in range(nv)] for i in range(nu)]
            me = build(m, 'NurbsSurface', {'u_degree': ci(pu), 'v_degree': ci(pv), 'u_knots': knots(m, ku), 'v_knots': knots(m, kv), 'control_points': arr([arr(r) for r in P])})
            p, ks = (pu, ku) if d == 'U' else (pv, kv)
            if me is None: return ctx.skip('split surface', 'surface', 'fields changed')
            for u, where in params(p, ks):
                u = float(u)
                o = build(m, 'SplitSurfaceOption', {'parameter': cf(u), 'direction': unit_adt(m, 'UVDirection', d)})
                if o is None: return ctx.skip('split surface', 'option', 'fields changed')
                outs = run(ctx, f, {f.arg_names.get(1): me, f.arg_names.get(2): o}, None)
                inst = 'direction %s degree %d knots %s at %s (other degree %d, %d knots)' % (d, p, ks, u, pv if d == 'U' else pu, len(kv if d == 'U' else ku))
                if outs is None: ctx.skip('split surface', inst, 'budget'); continue
                for fs, r in outs:
                    if fs: ctx.skip('split surface', inst, showf(fs, 3)[:80]); continue
                    if is_adt(r, RES, 'Err'):
                        if ks[p] < u < ks[-p - 1]: ctx.ob('split surface', inst, False, f.span, 'splitting %s fails' % where)
                        continue
                    v = r.a[3][0] if is_adt(r, RES, 'Ok') else None
                    if v is None or v.k != 'tup' or len(v.a[0]) != 2: ctx.skip('split surface', inst, show(r, 3)[:80]); continue
                    parts = []
                    for s in v.a[0]:
                        vals = {n: fld(s, n) for n in ('u_degree', 'v_degree', 'u_knots', 'v_knots', 'control_points')} if s.k == 'adt' else {}
                        g = vals.get('control_points')
                        if not vals or g.k != 'arr' or not all(x.k == 'arr' for x in g.a[0]): parts = None; break
                        other = (numeric(vals['v_degree']), knots_of(vals['v_knots'])) if d == 'U' else (numeric(vals['u_degree']), knots_of(vals['u_knots']))
                        rows = [list(x.a[0]) for x in g.a[0]]
                        if d == 'U': rows = [list(x) for x in zip(*rows)] if len({len(x) for x in rows}) == 1 else None
                        parts.append((vals['u_degree' if d == 'U' else 'v_degree'], vals['u_knots' if d == 'U' else 'v_knots'], rows, other))
                    if parts is None: ctx.skip('split surface', inst, show(r, 3)[:80]); continue
                    want = (pv, kv) if d == 'U' else (pu, ku)
                    lines = [list(x) for x in zip(*P)] if d == 'U' else P
                    okk = True
                    for q in parts:
                        okk &= ctx.ob('split surface', inst + ' other direction', q[3] == want, f.span, 'a part has degree and knots %s in the direction that is not split, instead of %s' % (q[3], want)) is not False
                        if q[2] is None or len(q[2]) != len(lines):
                            ctx.ob('split surface', inst + ' rows', False, f.span, 'a part has %s rows of control points across the split instead of %d' % ('uneven' if q[2] is None else len(q[2]), len(lines))); okk = False
                    if not okk: continue
                    for i, base in enumerate(lines):
                        pc = [build(m, 'NurbsCurve', {'degree': q[0], 'knots': q[1], 'control_points': arr(q[2][i])}) for q in parts]
                        judge(ctx, 'split surface', inst, f, p, ks, base, u, where, pc)
                    ctx.count('surface splits')

# ---- trimming: a piece is (curve, from, to) ----
def piece(c, lo, hi): return mk('call', 'piece', (c, cf(lo), cf(hi)))
def as_piece(t): return (t.a[1][0], numeric(t.a[1][1]), numeric(t.a[1][2])) if t.k == 'call' and t.a[0] == 'piece' else None
bad_splits = []
def piece_over(I, st, nm, v):
    if not v: return None
    p = as_piece(v[0])
    if p is None: return None
    c, lo, hi = p
    if nm in ('knots_domain',): return [(st, tup(cf(lo), cf(hi)))]
    if nm == 'try_split' and len(v) == 2:
        u = numeric(v[1])
        if u is None: return None
        u = min(max(float(u), lo), hi)
        return [(st, ok(tup(piece(c, lo, u), piece(c, u, hi))))]
def pieces_of(r):
    v = r.a[3][0] if is_adt(r, RES, 'Ok') else None
    if v is None or v.k != 'arr': return None
    out = [as_piece(x) for x in v.a[0]]
    return None if None in out else [(show(c), lo, hi) for c, lo, hi in out]

def trim_curve(ctx):
    m = ctx.m
    f = one_impl(ctx, 'try_trim_range', 'NurbsCurve')
    if not f: return
    for lo, hi in ((0.0, 4.0), (10.0, 14.0)):
        for a, b in ((1, 3), (3, 1), (2, 2), (0, 2), (2, 4), (4, 2), (2, 0), (1.5, 1.75), (0, 4)):
            a, b = lo + a, lo + b
            outs = run(ctx, f, {f.arg_names.get(1): piece(arg('C'), lo, hi), f.arg_names.get(2): tup(cf(a), cf(b))}, piece_over)
            inst = '[%s, %s] trimmed to (%s, %s)' % (lo, hi, a, b)
            want = [('C', a, b)] if a < b else [('C', a, hi), ('C', lo, b)]
            want = [x for x in want if x[1] < x[2]]
            if outs is None: ctx.skip('trim curve', inst, 'budget'); continue
            for fs, r in outs:
                got = pieces_of(r)
                if got is None or fs: ctx.skip('trim curve', inst, show(r, 3)[:80]); continue
                got = [x for x in got if x[1] < x[2]]
                ctx.ob('trim curve', inst, got == want, f.span, '%s gives %s instead of %s' % (inst, got, want))
                ctx.count('trims')

def trim_compound(ctx):
    m = ctx.m
    f = one_impl(ctx, 'try_trim_range', 'CompoundCurve')
    if not f: return
    for n, off in ((1, 0.0), (3, 0.0), (3, 100.0), (2, -7.0)):
        S = [piece(arg('C%d' % i), off + i, off + i + 1.0) for i in range(n)]
        me = build(m, 'CompoundCurve', {'spans': arr(S)})
        if me is None: return ctx.skip('trim compound', 'compound', 'fields changed')
        vals = [x * 0.5 for x in range(0, 2 * n + 1)] + [0.25]
        for a in vals:
            for b in vals:
                if a == b: continue
                A, B = off + a, off + b
                outs = run(ctx, f, {f.arg_names.get(1): me, f.arg_names.get(2): tup(cf(A), cf(B))}, piece_over)
                inst = '%d spans from %s trimmed to (%s, %s)' % (n, off, A, B)
                want = []
                for i in range(n):
                    lo, hi = off + i, off + i + 1.0
                    parts = [(max(lo, A), min(hi, B))] if A < B else [(lo, min(hi, B)), (max(lo, A), hi)]
                    want += [('C%d' % i, x, y) for x, y in parts if x < y]
                if outs is None: ctx.skip('trim compound', inst, 'budget'); continue
                for fs, r in outs:
                    got = pieces_of(r)
                    if got is None or fs: ctx.skip('trim compound', inst, show(r, 3)[:100] + showf(fs, 3)[:60]); continue
                    ctx.ob('trim compound', inst, got == want, f.span, '%s gives %s instead of %s' % (inst, got, want))
                    ctx.count('trims')
