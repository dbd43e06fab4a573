"""Exact interpretation of evaluation code: degrees, knots, weights and parameters are constants, the coordinates of the control points are symbols, so
that every evaluated quantity is a linear form in them, compared with the one the definition (Cox-de Boor, quotient rule) gives."""
from curvelab import *
from signs import *
from poly import Norm
from fractions import Fraction as Q
import math

SPECS = [  # degree, knots
 (1, [0., 0., 1., 1.]),
 (1, [-2., -2., -1.5, 1., 3., 3.]),
 (2, [1., 1., 1., 3., 3., 3.]),
 (2, [0., 0., 0., .5, 2., 3., 3., 3.]),
 (2, [0., 0., 0., 1., 1., 4., 4., 4.]),
 (3, [-1., -1., -1., -1., 0., .25, 2., 2., 2., 2.]),
 (3, [0., .25, 1., 2., 2.5, 3., 4., 8.]),
 (3, [0., 0., 0., 0., 1., 1., 1., 2., 2., 2., 2.]),
 (4, [5., 5., 5., 5., 5., 6., 6.5, 8., 8., 8., 8., 8.])]
WS = [.5, 1., 2., .75, 1.25, 3., .625, 1.5]
def weight(i): return WS[(i * 3 + i // 8) % 8]
def domain(p, ks): return ks[p], ks[len(ks) - 1 - p]
def params(p, ks, per=None):
    """the ends, the knots and per points inside every span"""
    lo, hi = domain(p, ks)
    us = sorted(set(x for x in ks if lo <= x <= hi))
    n = per or p + 1
    out = set(us)
    for a, b in zip(us, us[1:]): out |= {a + (b - a) * (i + 1) / 8 * (8 / (n + 1) if n > 7 else 1) for i in range(n)}
    return sorted(out)
def span(p, ks, u):
    lo, hi = domain(p, ks)
    n = len(ks) - p - 2
    if u >= hi: return max(i for i in range(p, n + 1) if ks[i] < ks[i + 1])
    return max(i for i in range(p, n + 1) if ks[i] <= u and ks[i] < ks[i + 1])
def basis(p, ks, u, d=0):
    """values (d-th derivatives) of all basis functions, exact"""
    K, x, s = [Q(k) for k in ks], Q(u), span(p, ks, u)
    def N(i, q, d):
        if q == 0: return Q(int(i == s)) if d == 0 else Q(0)
        def part(a, b, j): return Q(0) if b == a else (x - a) / (b - a) * N(j, q - 1, 0)
        if d:
            a, b = K[i + q] - K[i], K[i + q + 1] - K[i + 1]
            return q * ((N(i, q - 1, d - 1) / a if a else 0) - (N(i + 1, q - 1, d - 1) / b if b else 0))
        a, b = K[i + q] - K[i], K[i + q + 1] - K[i + 1]
        return ((x - K[i]) / a * N(i, q - 1, 0) if a else 0) + ((K[i + q + 1] - x) / b * N(i + 1, q - 1, 0) if b else 0)
    return [N(i, p, d) for i in range(len(ks) - p - 1)]

# linear forms: {symbol name: coefficient}, '' for the constant
def ladd(a, b, s=1):
    r = dict(a)
    for k, v in b.items(): r[k] = r.get(k, 0) + s * v
    return r
def lmul(a, c): return {k: v * c for k, v in a.items()}
def form(t):
    """linear form of a value term, or None"""
    try: n, d = Norm().rat(t)
    except OverflowError: return None
    c = d.get(())
    if c is None or len(d) != 1: return None
    r = {}
    for k, v in n.items():
        if len(k) > 1 or (k and k[0][1] != 1): return None
        r[k[0][0] if k else ''] = v / c
    return r
def atoms(t):
    N = Norm(); N.rat(t)
    return {n: x.a[0] if x.k == 'arg' else None for n, x in N.atoms.items()}
def lin(t):
    f = form(t)
    if f is None: return None
    nm = atoms(t)
    r = {}
    for k, v in f.items():
        if k != '' and nm[k] is None: return None
        r[nm[k] if k != '' else ''] = v
    return r
def close(a, b, tol=1e-8):
    ks = set(a) | set(b)
    m = max([1.] + [abs(float(v)) for v in b.values()])
    return all(abs(float(a.get(k, 0)) - float(b.get(k, 0))) <= tol * m for k in ks)
def lshow(a): return ' '.join('%+.4g%s' % (float(v), k) for k, v in sorted(a.items()) if abs(float(v)) > 1e-12)[:90] or '0'

def cpoint(tag, i, dim, w=None): return arr([arg('%s%s_%d' % (tag, i, c)) for c in range(dim - 1)] + [cf(weight(w)) if w is not None else cf(1.)])
def ncurve(m, spec, tag='P', dim=3):
    p, ks = spec
    return curve(m, p, ks, [cpoint(tag, i, dim, i) for i in range(len(ks) - p - 1)])
def hom(tag, B, dim, name=lambda i: str(i), wt=weight):
    """[linear form of each homogeneous coordinate] of sum B[i] P[i]"""
    out = [{'%s%s_%d' % (tag, name(i), c): b for i, b in enumerate(B) if b} for c in range(dim - 1)]
    return out, sum(b * Q(wt(i)) for i, b in enumerate(B))
def quotient(A, W):
    """rational derivatives from homogeneous ones: A[k] list of forms, W[k] numbers"""
    C = []
    for k in range(len(A)):
        v = A[k]
        for i in range(1, k + 1): v = [ladd(x, lmul(y, Q(math.comb(k, i)) * W[i]), -1) for x, y in zip(v, C[k - i])]
        C.append([lmul(x, 1 / W[0]) for x in v])
    return C

def evaluate(ctx, f, args, D=3, t=20, more=None, unroll=60, case=None, rec=3):
    """[(facts, final first argument, result)] or None"""
    I = engine(ctx, inline=lambda g: True, opaque=lambda g: None)
    I.consts, I.unroll, I.budget, I.t_end, I.exact, I.cap = {'D': D}, unroll, 3000000, time.time() + t, True, 64
    I.recursion = rec
    def over(I, st, name, info, a):
        nm = info['name']
        if more is not None:
            r = more(I, st, name, info, a)
            if r is not None: return r
        e = eps_over(nm, a)
        if e is not None: return [(st, e)]
        if nm in ARITH and len(a) == 2 or nm == 'neg' and len(a) == 1:
            r = arith(I, st, nm, a)
            if r is not None: return r
        if nm == 'dim' and not a: return [(st, ci(D))]
        if nm in ('origin', 'zeros') and not a: return [(st, zeros(I, info, D))]
        if nm in ('generic_view', 'fixed_rows', 'rows', 'fixed_view') and a:
            v = I.value(st, a[0])
            if v.k == 'arr': return [(st, arr(v.a[0][:D - 1]))]
        if nm == 'get' and 'Binomial' in name and len(a) == 3:
            n, k = I.value(st, a[1]), I.value(st, a[2])
            if isint(n) and isint(k): return [(st, cf(math.comb(n.a[1], k.a[1])))]
        if nm in ('from_slice', 'from_vec', 'from_iterator', 'from_column_slice') and len(a) == 1 and 'nalgebra' in name:
            v = I.value(st, a[0])
            if v.k == 'arr': return [(st, v)]
        if nm == 'lerp' and len(a) == 3:
            x, y, t = bare(I.value(st, a[0])), bare(I.value(st, a[1])), I.value(st, a[2])
            if x.k == y.k == 'arr' and len(x.a[0]) == len(y.a[0]):
                q = fold('Sub', cf(1.), t)
                return [(st, arr([fold('Add', fold('Mul', u, q), fold('Mul', v, t)) for u, v in zip(x.a[0], y.a[0])]))]
        if nm == 'name' and not a: return [(st, UNIT)]
        return None
    I.override = over
    with deciding(case or Case()):
        try: outs = I.auto(f, args)
        except Budget: return None
        return [(s.f, s.s.get(('r', 0)), I.value(s, r)) for s, r in outs]
ARITH = {k + x: v for k, v in (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mul'), ('div', 'Div')) for x in ('', '_assign')}
def arith(I, st, nm, a):
    """operators on explicit vectors, component by component"""
    v = [bare(I.value(st, x)) for x in a]
    vs = [x.k == 'arr' for x in v]
    if not any(vs) or any(x.k == 'arr' and any(y.k in ('arr', 'adt', 'tup') for y in x.a[0]) for x in v): return None
    if nm == 'neg': return [(st, arr([op('Sub', cf(0.), x) for x in v[0].a[0]]))]
    o = ARITH[nm]
    if all(vs):
        if len(v[0].a[0]) != len(v[1].a[0]) or o in ('Mul', 'Div'): return None
        r = arr([fold(o, x, y) for x, y in zip(v[0].a[0], v[1].a[0])])
    elif vs[0]: r = arr([fold(o, x, v[1]) for x in v[0].a[0]])
    elif o == 'Mul': r = arr([fold(o, x, v[0]) for x in v[1].a[0]])
    else: return None
    if not nm.endswith('_assign'): return [(st, r)]
    ref = a[0]
    while ref.k == 'ref' and I.get(st, ref.a[0], ref.a[1]).k == 'ref': ref = I.get(st, ref.a[0], ref.a[1])
    if ref.k != 'ref': return None
    s2 = st.copy()
    I.put(s2, ref.a[0], ref.a[1], r)
    return [(s2, UNIT)]
def bare(t): return t.a[3][0] if t.k == 'adt' and len(t.a[3]) == 1 and t.a[0].split('::')[-1] in ('OPoint', 'Point') and t.a[3][0].k == 'arr' else t
def fold(o, x, y):
    a, b = numeric(x), numeric(y)
    if o == 'Add' and a == 0: return y
    if o in ('Add', 'Sub') and b == 0: return x
    if o == 'Mul' and (a == 0 or b == 0): return cf(0.)
    return op(o, x, y)
def zeros(I, info, D):
    g = ' '.join(I.m.ty(x).s for x in (info.get('ra') or []) + (info.get('a') or []) if isinstance(x, int))
    n = D - 1 if 'DimNameDiff' in g or 'DimNameSub' in g or 'Output' in g else D
    return arr([cf(0.)] * n)
