"""C32 interpolation and lofting: the points are symbols. Their distances, on which parameters and knots depend, are those of an assignment of numbers to the
symbols, so that the matrix handed to the linear solver is constant; the solver is replaced by exact elimination and the control points are linear forms in
the points. The curve passes through a point where the forms reduce to that point alone; where along the curve that has to happen is not presupposed."""
from asklab import *
from refinelab import *
import random, math

NORMS = {'norm': 0, 'magnitude': 0, 'norm_squared': 1, 'magnitude_squared': 1, 'metric_distance': 0, 'distance': 0, 'distance_squared': 1}
SOLVERS = {'lu', 'full_piv_lu', 'qr', 'col_piv_qr'}
class Lengths:
    """distances between linear forms under one assignment of numbers to the symbols"""
    def __init__(s, seed, env=None): s.seed, s.env = seed, env or {}
    def of(s, name):
        if name not in s.env: s.env[name] = random.Random('%s %s' % (s.seed, name)).uniform(-2, 2)
        return s.env[name]
    def length(s, fs): return math.sqrt(sum(sum(float(c) * (s.of(n) if n else 1.) for n, c in f.items()) ** 2 for f in fs))
def unbox(t):
    while t.k == 'adt' and len(t.a[3]) == 1 and t.a[1] not in ('Ok', 'Err', 'Some'): t = t.a[3][0]
    return t
def matrix(t):
    t = unbox(t)
    if t.k != 'arr' or not t.a[0] or any(r.k != 'arr' for r in t.a[0]): return None
    rows = [[numeric(x) for x in r.a[0]] for r in t.a[0]]
    return None if any(None in r for r in rows) else rows
def inverse(A):
    n = len(A)
    if any(len(r) != n for r in A): return None
    M = [[Q(x) for x in r] + [Q(int(i == j)) for j in range(n)] for i, r in enumerate(A)]
    for c in range(n):
        p = max(range(c, n), key=lambda i: abs(M[i][c]))
        if abs(M[p][c]) < Q(1, 10 ** 12): return 'singular'
        M[c], M[p] = M[p], M[c]
        M[c] = [x / M[c][c] for x in M[c]]
        for i in range(n):
            if i != c and M[i][c]: M[i] = [x - M[i][c] * y for x, y in zip(M[i], M[c])]
    return [[float(x) for x in r[n:]] for r in M]
def solving(L):
    def over(I, st, name, info, a):
        nm = info['name']
        v = [unbox(I.value(st, x)) for x in a]
        if nm in NORMS and v:
            x = v[0]
            if len(v) == 2 and x.k == v[1].k == 'arr' and len(x.a[0]) == len(v[1].a[0]): x = arr([fold('Sub', p, q) for p, q in zip(x.a[0], v[1].a[0])])
            if x.k != 'arr': return None
            fs = [lin(c) for c in x.a[0]]
            if None in fs: return None
            d = L.length(fs)
            return [(st, cf(d * d if NORMS[nm] else d))]
        if nm in ('eq', 'ne') and len(v) == 2 and all(x.k == 'arr' and x.a[0] and all(c.k not in ('arr', 'adt', 'tup') for c in x.a[0]) for x in v):
            fs = [[lin(c) for c in x.a[0]] for x in v]
            if None in fs[0] + fs[1]: return None
            same = len(fs[0]) == len(fs[1]) and all(abs(float(f.get(k, 0)) - float(g.get(k, 0))) < 1e-12 for f, g in zip(*fs) for k in set(f) | set(g))
            return [(st, TRUE if same == (nm == 'eq') else FALSE)]
        if nm in ('powf', 'sqrt', 'powi') and v and None not in [numeric(x) for x in v]:
            x = float(numeric(v[0]))
            return [(st, cf(math.sqrt(x) if nm == 'sqrt' else x ** numeric(v[1])))] if x >= 0 else None
        if nm in ('zeros', 'identity') and len(v) in (1, 2) and all(isint(x) for x in v):
            n = [x.a[1] for x in v]
            if max(n) > 64: return None
            if len(n) == 1: return [(st, arr([cf(0.)] * n[0]))]
            return [(st, arr([arr([cf(1. if nm == 'identity' and i == j else 0.) for j in range(n[1])]) for i in range(n[0])]))]
        if nm in ('index', 'index_mut') and len(v) == 2 and v[1].k == 'tup' and len(v[1].a[0]) == 2 and all(isint(x) for x in v[1].a[0]):
            i, j = v[1].a[0]
            if v[0].k != 'arr' or not v[0].a[0] or v[0].a[0][0].k != 'arr': return None
            if i.a[1] >= len(v[0].a[0]) or j.a[1] >= len(v[0].a[0][0].a[0]): return []
            if nm == 'index': return [(st, v[0].a[0][i.a[1]].a[0][j.a[1]])]
            r = a[0]
            while r.k == 'ref' and I.get(st, r.a[0], r.a[1]).k == 'ref': r = I.get(st, r.a[0], r.a[1])
            return [(st, mk('ref', r.a[0], r.a[1] + (('e', i), ('e', j))))] if r.k == 'ref' else None
        if nm in ('nrows', 'ncols', 'shape') and len(v) == 1 and v[0].k == 'arr':
            m = bool(v[0].a[0]) and v[0].a[0][0].k == 'arr'
            s = (ci(len(v[0].a[0])), ci(len(v[0].a[0][0].a[0]) if m else 1))
            return [(st, tup(*s) if nm == 'shape' else s[nm == 'ncols'])]
        if nm in ('from_row_slice', 'from_column_slice') and len(v) == 3 and isint(v[0]) and isint(v[1]) and v[2].k == 'arr':
            n, m, x = v[0].a[1], v[1].a[1], v[2].a[0]
            if len(x) != n * m: return []
            return [(st, arr([arr([x[i * m + j] if 'row' in nm else x[j * n + i] for j in range(m)]) for i in range(n)]))]
        if nm in SOLVERS and len(v) == 1 and matrix(v[0]) is not None: return [(st, mk('call', 'factors', (v[0],)))]
        if nm == 'solve' and len(v) == 2 and v[0].k == 'call' and v[0].a[0] == 'factors':
            A, b = inverse(matrix(v[0].a[1][0])), v[1]
            if A == 'singular': return [(st, NONE)]
            if A is None or b.k != 'arr' or len(b.a[0]) != len(A): return None
            cols = [r.a[0] for r in b.a[0]] if b.a[0][0].k == 'arr' else None
            dot = lambda row, col: total(fold('Mul', cf(c), x) for c, x in zip(row, col) if c)
            if cols: return [(st, some(arr([arr([dot(r, [x[j] for x in cols]) for j in range(len(cols[0]))]) for r in A])))]
            return [(st, some(arr([dot(r, b.a[0]) for r in A])))]
        return None
    return over
def total(xs):
    r = cf(0.)
    for x in xs: r = fold('Add', r, x)
    return r

def fbasis(p, ks, u):
    """values of the basis functions, floating point"""
    s, n = span(p, ks, u), len(ks) - p - 1
    N = [0.] * (len(ks) - 1)
    N[s] = 1.
    for q in range(1, p + 1):
        for i in range(len(ks) - q - 1):
            a, b = ks[i + q] - ks[i], ks[i + q + 1] - ks[i + 1]
            N[i] = ((u - ks[i]) / a * N[i] if a else 0.) + ((ks[i + q + 1] - u) / b * N[i + 1] if b else 0.)
    return N[:n]
def mix(B, F):
    out = [{} for _ in F[0]]
    for b, f in zip(B, F):
        if b:
            for o, g in zip(out, f):
                for k, v in g.items(): o[k] = o.get(k, 0.) + b * float(v)
    return out
def off(x, want):
    return sum((f.get(k, 0.) - g.get(k, 0.)) ** 2 for f, g in zip(x, want) for k in set(f) | set(g))
def visit(s, F, want):
    """parameters where the curve is the wanted point, up to 1e-7 of a coefficient"""
    p, ks = s
    lo, hi = domain(p, ks)
    g = lambda u: off(mix(fbasis(p, ks, min(max(u, lo), hi)), F), want)
    us = sorted({lo + (hi - lo) * i / 160 for i in range(161)} | {k for k in ks if lo <= k <= hi})
    ys = [g(u) for u in us]
    out = []
    for i, u in enumerate(us):
        if i and ys[i - 1] < ys[i] or i + 1 < len(us) and ys[i + 1] < ys[i]: continue
        a, b = us[max(i - 1, 0)], us[min(i + 1, len(us) - 1)]
        for _ in range(70):
            c, d = a + (b - a) * .382, a + (b - a) * .618
            if g(c) <= g(d): b = d
            else: a = c
        best = min((g(x), x) for x in (u, (a + b) / 2))
        if best[0] < 1e-12: out.append(best[1])
    return out
def ordered(found):
    """ascending choice of one parameter per point"""
    at = -math.inf
    for us in found:
        us = [u for u in us if u > at - 1e-9]
        if not us: return False
        at = min(us)
    return True

def check(ctx):
    ctx.rule('interpolate', 'the curve passes through every point, in order')
    ctx.rule('periodic', 'the closed curve passes through every point, in order, and is smooth where it closes')
    ctx.rule('coincide', 'points that allow no curve give an error')
    ctx.rule('loft', 'the surface contains every curve it is lofted through, in order')
    ctx.assumptions.append('the linear solver is exact; chord lengths are those of generic positions')
    interpolated(ctx); periodic(ctx); lofted(ctx)

def points(n, dim, tag='P', same=()): return [arr([arg('%s%d_%d' % (tag, dict(same).get(i, i), c)) for c in range(dim)]) for i in range(n)]
def want(i, dim, tag='P'): return [{'%s%d_%d' % (tag, i, c): 1.} for c in range(dim)] + [{'': 1.}]
def judge(ctx, rule, inst, f, outs, verdict):
    if outs is None: return ctx.skip(rule, inst, 'not interpreted')
    never = lambda t: find(t, lambda x: x.k == 'c' and x.a[-1] == '<never>')
    if all(never(r) or any(never(c) for c, _ in fs) for fs, _, r in outs): return ctx.ob(rule, inst, False, f.span, '%s panics' % inst)
    for fs, _, r in outs:
        if fs: ctx.skip(rule, inst, showf(fs, 3)[:90]); continue
        v = verdict(ok_of(r))
        if v is None: ctx.skip(rule, inst, show(r, 5)[:120]); continue
        ctx.ob(rule, inst, v == '', f.span, '%s %s' % (inst, v)); ctx.count('shapes')
def through(n, p, dim, closed=False):
    def verdict(r):
        if r is None: return None
        if r == 'err': return 'gives an error'
        x = read(r)
        if x is None: return None
        s, F = x
        w = wellformed(s, F)
        if w: return w
        if s[0] != p: return 'has degree %d' % s[0]
        lo, hi = domain(*s)
        if not lo < hi: return 'has an empty domain'
        found = [visit(s, F, want(i, dim)) for i in range(n)]
        for i, us in enumerate(found):
            if not us: return 'does not pass through point %d' % i
        if not ordered(found): return 'visits the points out of order'
        if not closed:
            for i, u, nm in ((0, lo, 'start'), (n - 1, hi, 'end')):
                if off(mix(fbasis(*s, u), F), want(i, dim)) > 1e-12: return 'does not %s at point %d' % (nm, i)
            return ''
        for d in range(p):     # derivatives on both sides of the seam
            a, b = [mix([float(x) for x in basis(*s, u, d)], F) for u in (lo, hi)]
            m = max([1.] + [abs(v) for f in b for v in f.values()])
            if off(a, b) > 1e-10 * m * m: return 'is not smooth where it closes: derivative %d differs' % d
        return ''
    return verdict
def interpolated(ctx):
    m = ctx.m
    f = public(ctx, 'NurbsCurve', 'try_interpolate')
    if not f: return
    for p in range(1, 5):
        for n in (p + 1, p + 2, p + 4, 7):
            for dim in (2, 3) if n == p + 2 else (3,):
                for seed in (1, 2):
                    inst = 'interpolation of %d points in %dD, degree %d, position %d' % (n, dim, p, seed)
                    outs = evaluate(ctx, f, dict(zip(names(f), [arr(points(n, dim)), ci(p)])), dim + 1, more=solving(Lengths(seed)))
                    judge(ctx, 'interpolate', inst, f, outs, through(n, p, dim))
    # an unevenly spaced list, and one that comes back to its first point
    for p in (2, 3):
        env = {'P%d_%d' % (i, c): [0., .01, 1., 1.02, 40., 41.][i] * (c == 0) for i in range(6) for c in range(3)}
        inst = 'interpolation of 6 unevenly spaced points, degree %d' % p
        judge(ctx, 'interpolate', inst, f, evaluate(ctx, f, dict(zip(names(f), [arr(points(6, 3)), ci(p)])), 4, more=solving(Lengths(0, env))), through(6, p, 3))
        inst = 'interpolation of 5 points, the last one being the first one, degree %d' % p
        def closing(r):
            if r in (None, 'err'): return None if r is None else 'gives an error'
            x = read(r)
            if x is None: return None
            for i in range(4):
                if not visit(*x, want(i, 3)): return 'does not pass through point %d' % i
            lo, hi = domain(*x[0])
            return '' if off(mix(fbasis(*x[0], lo), x[1]), mix(fbasis(*x[0], hi), x[1])) < 1e-12 else 'is not closed'
        judge(ctx, 'interpolate', inst, f, evaluate(ctx, f, dict(zip(names(f), [arr(points(5, 3, same={4: 0})), ci(p)])), 4, more=solving(Lengths(3))), closing)
    def fails(r): return None if r is None else '' if r == 'err' else 'succeeds'
    for n, same in ((4, {1: 0, 2: 0, 3: 0}), (3, {1: 0, 2: 0})):
        inst = 'interpolation of %d equal points, degree 2' % n
        judge(ctx, 'coincide', inst, f, evaluate(ctx, f, dict(zip(names(f), [arr(points(n, 3, same=same)), ci(2)])), 4, more=solving(Lengths(1))), fails)
def periodic(ctx):
    m = ctx.m
    f = public(ctx, 'NurbsCurve', 'try_periodic_interpolate')
    if not f: return
    styles = styles_of(m)
    if not styles: ctx.anchor_missing('KnotStyle'); return
    for p in range(1, 5):
        for n in (p + 1, p + 2, 7):
            for st in styles:
                inst = 'periodic interpolation of %d points, degree %d, %s knots' % (n, p, st.a[1])
                outs = evaluate(ctx, f, dict(zip(names(f), [arr(points(n, 3)), ci(p), st])), 4, more=solving(Lengths(5)))
                judge(ctx, 'periodic', inst, f, outs, solvable(through(n, p, 3, True), p, n, st))
def solvable(v, p, n, st):
    """closed interpolation of even degree at the knots is singular for an even number of points: an error is right"""
    def w(r):
        if r == 'err' and p % 2 == 0 and n % 2 == 0: return ''
        return v(r)
    return w
def styles_of(m):
    for a in m.adts:
        if a['path'].split('::')[-1] == 'KnotStyle': return [unit_adt(m, 'KnotStyle', v['n']) for v in a['v']]
    return []

# sections of lofts: (degree, knots) per curve
CL = lambda p, *mid: (p, [0.] * (p + 1) + list(mid) + [1.] * (p + 1))
LOFTS = [
 ('two lines', [CL(1), CL(1)], None),
 ('three parabolas', [CL(2)] * 3, None),
 ('four cubics', [CL(3)] * 4, 3),
 ('five lines, cubic', [CL(1)] * 5, 3),
 ('four lines, degree 2', [CL(1)] * 4, 2),
 ('four polylines, linear', [CL(1, .5)] * 4, 1),
 ('different degrees', [CL(1), CL(3), CL(2)], 2),
 ('different knots', [CL(2, .5), CL(2, .25, .75), CL(2)], 2),
 ('different domains', [(2, [1., 1., 1., 3., 3., 3.]), (2, [-1., -1., -1., 0., 3., 3., 3.]), CL(2)], 2),
 ('repeated knots', [CL(2, .5, .5), CL(2, .5), CL(3)], 1),
 ('knots apart by rounding', [CL(2, .6), CL(2, math.nextafter(.6, 1)), CL(2, math.nextafter(math.nextafter(.6, 1), 1))], 2),
 ('unclamped, spaced alike', [(2, [0., 1., 2., 3., 4., 5., 6.]), (2, [2., 4., 6., 8., 10., 12., 14.])], 1),
 ('unclamped, spaced differently', [(2, [0., 1., 2., 3., 4., 5., 6.]), (2, [0., 1., 2., 4., 5., 7., 8., 9.])], 1),
 ('clamped with unclamped', [CL(2), (2, [0., 1., 2., 3., 4., 5., 6.]), CL(2, .5)], 2),
]
def wt(k, i): return weight(2 * k + 3 * i)
def section(m, spec, k, dim, rational, pole):
    p, ks = spec
    def c(i, j): return arg('A%d' % j) if pole is not None and i == pole else arg('P%d_%d_%d' % (k, i, j))
    return curve(m, p, ks, [arr([c(i, j) for j in range(dim - 1)] + [cf(wt(k, i) if rational else 1.)]) for i in range(len(ks) - p - 1)])
def lofted(ctx):
    m = ctx.m
    f = public(ctx, 'NurbsSurface', 'try_loft')
    if not f: return
    for at, specs, deg in LOFTS:
        kinds = [('', False, None, 1), (' rational', True, None, 2)]
        if len(set(map(str, specs))) == 1 and specs[0][0] < 3: kinds += [(' with a common first point', False, 0, 3)]
        for more, rational, pole, seed in kinds:
            inst = 'loft of %s%s' % (at, more)
            cs = arr([section(m, s, k, 4, rational, pole) for k, s in enumerate(specs)])
            outs = evaluate(ctx, f, dict(zip(names(f), [cs, NONE if deg is None else some(ci(deg))])), 4, more=solving(Lengths(seed)), t=40)
            F = [[[{('A%d' % j if pole is not None and i == pole else 'P%d_%d_%d' % (k, i, j)): 1.} for j in range(3)] + [{'': wt(k, i) if rational else 1.}]
                for i in range(len(s[1]) - s[0] - 1)] for k, s in enumerate(specs)]
            judge(ctx, 'loft', inst, f, outs, contains(specs, F, deg))
def contains(specs, F, deg):
    def verdict(r):
        if r is None: return None
        if r == 'err': return 'gives an error'
        x = readsurf(r)
        if x is None: return None
        su, sv, R = x
        if len({len(r) for r in R}) != 1: return 'has rows of different lengths'
        for s, n, w in ((su, len(R), 'u'), (sv, len(R[0]), 'v')):
            if len(s[1]) != n + s[0] + 1: return 'has %d %s knots for %d control points of degree %d' % (len(s[1]), w, n, s[0])
            if any(a > b for a, b in zip(s[1], s[1][1:])): return 'has %s knots out of order' % w
        if deg is not None and sv[0] != min(deg, len(specs) - 1): return 'has v degree %d' % sv[0]
        ua, ub = domain(*su)
        us = [ua + (ub - ua) * t for t in (0., .15, .3, .45, .6, .8, 1.)]
        # at each u the surface is a curve in v that has to be at the curve's own point, at one v for all u
        found = []
        for s, G in zip(specs, F):
            a, b = domain(*s)
            wants = [mix(fbasis(*s, a + (b - a) * (u - ua) / (ub - ua)), G) for u in us]
            cols = [[mix(fbasis(*su, u), [row[j] for row in R]) for j in range(len(R[0]))] for u in us]
            vs = {v for i in (6, 0) for v in visit(sv, cols[i], wants[i])}
            found.append(sorted(v for v in vs if all(off(mix(fbasis(*sv, v), c), w) < 1e-9 for c, w in zip(cols, wants))))
        for k, vs in enumerate(found):
            if not vs: return 'does not contain curve %d' % k
        if not ordered(found): return 'contains the curves out of order'
        va, vb = domain(*sv)
        if min(found[0]) > va + 1e-6 or max(found[-1]) < vb - 1e-6: return 'does not end at its first and last curve'
        return ''
    return verdict
