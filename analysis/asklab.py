"""Asks one function for a value with explicit arguments and compares it; reference values of NURBS curves and surfaces."""
from evallab import *
from solverlab import impls

def public(ctx, ty, nm, need=True):
    fs = {f.id: f for f in ctx.m.method(ty, nm) + impls(ctx, nm, ty)}
    if len(fs) == 1: return list(fs.values())[0]
    if need: ctx.anchor_missing('%s::%s' % (ty, nm))
    return None
def names(f): return [f.arg_names.get(i) for i in range(1, f.nargs + 1)]
def vecof(t):
    """the coordinates of a point or vector value"""
    while t is not None and t.k == 'adt' and len(t.a[3]) == 1: t = t.a[3][0]
    return list(t.a[0]) if t is not None and t.k == 'arr' else None
def agree(t, want):
    """True/False/None: vector value against linear forms (numbers count as constant forms)"""
    v = vecof(t)
    if v is None: return None
    if len(v) != len(want): return False
    r = True
    for x, w in zip(v, want):
        w = w if isinstance(w, dict) else {'': w}
        f = lin(x)
        if f is None: return None
        if not close(f, w): r = False
    return r
def scalar(t, x):
    v = numeric(t)
    if v is None:
        f = lin(t)
        v = f.get('', 0) if f is not None and not set(f) - {''} else None
    return None if v is None else abs(float(v) - float(x)) <= 1e-9 * max(1., abs(float(x)))
def every(rs):
    rs = list(rs)
    return False if False in rs else None if None in rs else True
def listed(t, wants, cmp):
    if t is None or t.k not in ('arr', 'tup'): return None
    if len(t.a[0]) != len(wants): return False
    return every(cmp(x, w) for x, w in zip(t.a[0], wants))
def ask(ctx, rule, inst, f, args, verdict, D=3, what='differs from the definition', **kw):
    outs = evaluate(ctx, f, dict(zip(names(f), args)), D, **kw)
    if not outs: return ctx.skip(rule, inst, 'not interpreted')
    for fs, me, r in outs:
        if fs: ctx.skip(rule, inst, showf(fs, 3)[:90]); continue
        v = verdict(r)
        if v is None: ctx.skip(rule, inst, show(r, 5)[:120]); continue
        ctx.ob(rule, inst, v, f.span, '%s %s: %s' % (inst, what, show(r, 4)[:120])); ctx.count('values')

def rational(spec, u, dim, order, wt=weight, tag='P'):
    p, ks = spec
    A, W = zip(*[hom(tag, basis(p, ks, u, d), dim, wt=wt) for d in range(order + 1)])
    return quotient(list(A), list(W))
def label(spec, k): return 'degree %d, knots #%d' % (spec[0], k)
def nsurf(m, a, b, dim=4, tag='P'):
    (p, ku), (q, kv) = SPECS[a], SPECS[b]
    U, V = knots(m, ku), knots(m, kv)
    if U is None: return None
    nv = len(kv) - q - 1
    return build(m, 'NurbsSurface', {'u_degree': ci(p), 'v_degree': ci(q), 'u_knots': U, 'v_knots': V,
        'control_points': arr([arr([cpoint(tag, '%d_%d' % (i, j), dim, i * nv + 2 * j + i) for j in range(nv)]) for i in range(len(ku) - p - 1)])})
def shom(a, b, u, v, du, dv, dim=4, tag='P'):
    (p, ku), (q, kv) = SPECS[a], SPECS[b]
    Bu, Bv = basis(p, ku, u, du), basis(q, kv, v, dv)
    nv = len(kv) - q - 1
    prod = {(i, j): x * y for i, x in enumerate(Bu) for j, y in enumerate(Bv) if x * y}
    return [{'%s%d_%d_%d' % (tag, i, j, c): z for (i, j), z in prod.items()} for c in range(dim - 1)], sum((z * Q(weight(i * nv + 2 * j + i)) for (i, j), z in prod.items()), Q(0))
def srational(a, b, u, v, n, dim=4):
    """S[k][l] for k + l <= n"""
    H = {(k, l): shom(a, b, u, v, k, l, dim) for k in range(n + 1) for l in range(n + 1 - k)}
    S = {}
    for k in range(n + 1):
        for l in range(n + 1 - k):
            x = H[k, l][0]
            for i in range(k + 1):
                for j in range(l + 1):
                    if i or j: x = [ladd(c, lmul(d, Q(math.comb(k, i) * math.comb(l, j)) * H[i, j][1]), -1) for c, d in zip(x, S[k - i, l - j])]
            S[k, l] = [lmul(c, 1 / H[0, 0][1]) for c in x]
    return S
