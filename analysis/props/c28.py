"""C28 queries on knot vectors: knots and parameter are symbols, one order of them per case (every knot, every gap, below and above); along the path that order takes
the answer is an index, or a list of the symbols, and has to be the one the knots define. Functions that compute are compared at an assignment (identity testing)."""
from termlab import *

VECTORS = [(1, [0., 0., 1., 1.]), (2, [0., 0., 0., 1., 1., 1.]), (2, [0., 0., 0., 1., 2., 2., 3., 3., 3.]), (3, [-1.] * 4 + [0., .5, .5, .5] + [2.] * 4),
           (2, [0., 1., 2., 3., 4., 5., 6.]), (3, [0., 0., 1., 3., 3., 4., 6., 7., 7., 9.]), (1, [-2., -2., 0., 0., 5., 5.]), (4, [2.] * 5 + [2.25, 3., 3.5, 4., 4.75] + [5.] * 5),
           (2, [0., 0., 0., 1e-4, 1., 1., 1.]), (2, [0., 0., 1., 2., 3., 3., 3.]), (2, [0., 0., 0., 1., 2., 3., 3.])]

def check(ctx):
    ctx.rule('order', 'positions, insertions, multiplicities and clamping follow the order of the knots')
    ctx.rule('span', 'the span of a parameter is the non-empty one that contains it, the last one at the end of the domain, however it is searched')
    ctx.rule('domain', 'domain, uniform vectors, reversal and even subdivisions are those of the knots')
    ctx.rule('basis', 'basis functions of evenly spaced parameters are those of the definition')
    ctx.assumptions.append('one assignment for every order of knots and parameter; knots closer than rounding are not considered')
    m = ctx.m
    if not vector(m, [0., 1.]): return ctx.anchor_missing('KnotVector')
    ordering(ctx); spans(ctx); domains(ctx); spaced(ctx)

def vector(m, ks, sym=False):
    return build1(m, [arg('k%d' % i) if sym else cf(x) for i, x in enumerate(ks)])
def build1(m, xs):
    a = [x for x in m.adts if x['path'].split('::')[-1] == 'KnotVector']
    if len(a) != 1 or len(a[0]['v']) != 1 or len(a[0]['v'][0]['f']) != 1: return None
    return adt(a[0]['path'], a[0]['v'][0]['n'], (a[0]['v'][0]['f'][0]['n'],), (arr(xs),))
def env_of(ks, **kw): return dict({'k%d' % i: x for i, x in enumerate(ks)}, **kw)
def inner(t):
    while t is not None and t.k == 'adt' and len(t.a[3]) == 1 and t.a[1] not in ('Ok', 'Err', 'Some'): t = t.a[3][0]
    return t
def listed(t, env):
    try: v = values(inner(t), env)
    except Unknown: return None
    return v if isinstance(v, list) else None
def marks(ks):
    ds = sorted(set(ks))
    return [ds[0] - 1.] + [x for a, b in zip(ds, ds[1:]) for x in (a, (a + b) / 2)] + [ds[-1], ds[-1] + 1.]
def run(ctx, rule, inst, f, args, env, test, D=3, **kw):
    """test(result, final self, env)"""
    outs = summary(ctx, f, args, D, case=Witness(env), unroll=200, **kw)
    if outs is None: return ctx.skip(rule, inst, 'not interpreted')
    if any(holds(fs, env) is None for fs, _, _ in outs): return ctx.skip(rule, inst, 'condition without a meaning')
    outs = [o for o in outs if holds(o[0], env)]
    if not outs: return ctx.ob(rule, inst, False, f.span, '%s panics' % inst)
    if len(outs) != 1: return ctx.skip(rule, inst, '%d paths' % len(outs))
    d = test(outs[0][2], outs[0][1], env)
    if d is None: return ctx.skip(rule, inst, show(outs[0][2], 4)[:100])
    ctx.ob(rule, inst, d == '', f.span, '%s %s' % (inst, d)); ctx.count('queries')
def number(t, env):
    try: return num(inner(t), env)
    except Unknown: return None
def is_(want, what='is %g instead of %g'):
    def t(r, me, e):
        x = number(r, e)
        return None if x is None else '' if x == want else what % (x, want)
    return t
def text(ks): return '(%s)' % ', '.join('%g' % k for k in ks)
def optional(m): return lambda r, e: None

def ordering(ctx):
    m = ctx.m
    fl, ad, mu, cl = [public(ctx, 'KnotVector', n) for n in ('floor', 'add', 'multiplicity', 'is_clamped')]
    for p, ks in VECTORS:
        me = vector(m, ks, True)
        for x in marks(ks):
            env = env_of(ks, x=x)
            at = '%g in %s' % (x, text(ks))
            below = [i for i, k in enumerate(ks) if k <= x]
            def floor(r, me_, e):
                if r.k != 'adt' or r.a[1] not in ('Some', 'None'): return None
                if r.a[1] == 'None': return '' if not below else 'is missing'
                i = number(r.a[3][0], e)
                return None if i is None else '' if below and i == below[-1] else 'is %g' % i
            if fl: run(ctx, 'order', 'last knot not above ' + at, fl, [me, arg('x')], env, floor)
            def add(r, me_, e):
                i, l = number(r, e), listed(me_, e)
                if i is None or l is None: return None
                if l != sorted(ks + [x]): return 'gives knots %s' % text(l)
                return '' if l[int(i)] == x and (x not in ks or True) else 'reports index %d' % i
            if ad: run(ctx, 'order', 'adding ' + at, ad, [me, arg('x')], env, add)
        want = [(k, ks.count(k)) for k in sorted(set(ks))]
        def mult(r, me_, e):
            r = inner(r)
            if r.k != 'arr': return None
            got = []
            for q in r.a[0]:
                if q.k != 'adt' or len(q.a[3]) != 2 or set(q.a[2]) != {'knot', 'multiplicity'}: return None
                got.append((number(fld(q, 'knot'), e), number(fld(q, 'multiplicity'), e)))
            if any(None in g for g in got): return None
            return '' if got == want else 'are %s' % ', '.join('%g x%d' % g for g in got)
        if mu: run(ctx, 'order', 'multiplicities of ' + text(ks), mu, [me], env_of(ks), mult)
        if cl:
            for d in range(0, 5):
                w = want[0][1] > d and want[-1][1] > d
                def clamped(r, me_, e):
                    r = inner(r)
                    try: b = True if r is TRUE else False if r is FALSE else bool(num(r, e))
                    except Unknown: return None
                    return '' if b == w else 'is %s' % b
                run(ctx, 'order', '%s is clamped for degree %d' % (text(ks), d), cl, [me, ci(d)], env_of(ks), clamped)

def spans(ctx):
    m = ctx.m
    for nm in ('find_knot_span_index', 'find_knot_span_linear'):      # the linear search is given the number of control points
        f = public(ctx, 'KnotVector', nm)
        if not f: continue
        for p, ks in VECTORS:
            n = len(ks) - p - 2
            lo, hi = ks[p], ks[n + 1]
            me = vector(m, ks, True)
            for x in marks(ks):
                if not lo <= x <= hi and nm == 'find_knot_span_linear' and x < lo: continue
                if x < hi: w = max([i for i in range(p, n + 1) if ks[i] <= x and ks[i] < ks[i + 1]] or [p])
                else: w = n
                if x < lo: w = p
                if x >= hi and not ks[n] < ks[n + 1]: continue
                run(ctx, 'span', '%s of %g in %s, degree %d' % (nm, x, text(ks), p), f, [me, ci(n + ('linear' in nm)), ci(p), arg('x')], env_of(ks, x=x), is_(w))

def domains(ctx):
    m = ctx.m
    dom, cl, un, rs = [public(ctx, 'KnotVector', n) for n in ('domain', 'clamp', 'uniform', 'regularly_spaced_span')]
    inv = public(ctx, 'KnotVector', 'invert')
    def pair(want):
        def t(r, me, e):
            if r.k != 'tup': return None
            v = [number(x, e) for x in r.a[0]]
            return None if None in v else '' if near(v, want, 1e-12) and len(v) == len(want) else 'is %s instead of %s' % (text(v), text(want))
        return t
    for p, ks in VECTORS:
        me, n = vector(m, ks, True), len(ks) - p - 2
        lo, hi = ks[p], ks[n + 1]
        if dom: run(ctx, 'domain', 'domain of %s, degree %d' % (text(ks), p), dom, [me, ci(p)], env_of(ks), pair((lo, hi)))
        if cl:
            for x in marks(ks):
                def inside(r, me_, e):
                    v = number(r, e)
                    return None if v is None else '' if v == min(max(x, lo), hi) else 'is %g' % v
                run(ctx, 'domain', '%g clamped to %s, degree %d' % (x, text(ks), p), cl, [me, ci(p), arg('x')], env_of(ks, x=x), inside)
        if rs:
            for d in (1, 3, 8): run(ctx, 'domain', '%d even parts of %s' % (d, text(ks)), rs, [me, ci(p), ci(d)], env_of(ks), pair((lo, hi, (hi - lo) / d, n)))
        if inv:
            want = [ks[0] + ks[-1] - k for k in reversed(ks)]
            def reversed_(r, me_, e):
                l = listed(me_, e)
                return None if l is None else '' if len(l) == len(want) and near(l, want, 1e-12) else 'is %s' % text(l)
            run(ctx, 'domain', 'reversal of ' + text(ks), inv, [me], env_of(ks), reversed_)
    if un:
        for n in (2, 3, 6):
            for p in (1, 2, 3):
                want = [0.] * p + [float(i) for i in range(n)] + [n - 1.] * p
                def even(r, me_, e):
                    l = listed(r, e)
                    return None if l is None else '' if l == want else 'is %s' % text(l)
                run(ctx, 'domain', 'uniform knots of %d values, degree %d' % (n, p), un, [ci(n), ci(p)], {}, even)

def spaced(ctx):
    m = ctx.m
    for nm, deriv in (('regulary_spaced_basis_functions', False), ('regularly_spaced_derivative_basis_functions', True)):
        f = public(ctx, 'KnotVector', nm, False)
        if not f: continue
        for p, ks in VECTORS:
            n = len(ks) - p - 2
            lo, hi = ks[p], ks[n + 1]
            if not ks[n] < ks[n + 1]: continue
            for d in (1, 4, 5):
                us = [lo + (hi - lo) * i / d for i in range(d + 1)]
                # the spacing is summed up, so a parameter that meets a knot may fall on either side of it
                def spread(r, me, e):
                    if r.k != 'tup' or len(r.a[0]) != 2: return None
                    try: S, B = [values(x, e) for x in r.a[0]]
                    except Unknown: return None
                    if len(S) != d + 1 or len(B) != d + 1: return 'has %d spans and %d values for %d parameters' % (len(S), len(B), d + 1)
                    for u, s, b in zip(us, S, B):
                        s = int(s)
                        if not p <= s <= n: return 'has span %d at %g' % (s, u)
                        if not ks[s] - 1e-9 <= u <= ks[s + 1] + 1e-9: return 'has span %d at %g' % (s, u)
                        rows = b if deriv else [b]
                        for k, row in enumerate(rows[:p + 1] if not meets(ks, u) else rows[:1]):
                            w = [0.] * len(row)
                            N = basis(p, ks, u, k)
                            w = [float(N[s - p + j]) for j in range(p + 1)]
                            if len(row) != p + 1 or not near(row, w, 1e-6): return 'has %s instead of %s at %g' % (text(row), text(w), u)
                        if deriv and len(rows) < 2: return 'has no derivatives'
                    return ''
                run(ctx, 'basis', '%s of %s, degree %d, %d parts' % (nm, text(ks), p, d), f, [vector(m, ks), ci(p), ci(d)], {}, spread, t=40)
def meets(ks, u): return any(abs(k - u) < 1e-9 for k in ks)
