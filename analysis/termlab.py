"""Symbolic results compared by identity testing: the value of a term (vectors expanded to their components) at assignments of the symbols, and the
conditions under which a path is taken."""
from asklab import *
from refinelab import ok_of
import random, sys

FN = {'sqrt': lambda x: math.sqrt(x) if x >= 0 else math.nan, 'abs': abs, 'cos': math.cos, 'sin': math.sin, 'tan': math.tan, 'acos': lambda x: math.acos(x) if -1 <= x <= 1 else math.nan, 'atan2': math.atan2,
      'min': min, 'max': max, 'floor': math.floor, 'ceil': math.ceil, 'powi': lambda x, n: x ** n, 'signum': lambda x: math.copysign(1, x), 'hypot': math.hypot, 'exp': math.exp, 'ln': lambda x: math.log(x) if x > 0 else math.nan,
      'round': round, 'powf': lambda x, n: x ** n if x > 0 else math.nan, 'asin': lambda x: math.asin(x) if -1 <= x <= 1 else math.nan, 'recip': lambda x: 1 / x if x else math.nan, 'clamp': lambda x, a, b: min(max(x, a), b), 'is_finite': math.isfinite, 'is_nan': math.isnan, 'is_infinite': math.isinf, 'infinity': lambda: math.inf, 'neg_infinity': lambda: -math.inf}
class Unknown(Exception): pass
def num(t, env, memo=None):
    """value of a scalar or boolean term; Unknown when it has parts without a meaning here"""
    memo = {} if memo is None else memo
    if t in memo: return memo[t]
    r = memo[t] = _num(t, env, lambda x: num(x, env, memo))
    return r
def _num(t, env, v):
    c = numeric(t)
    if c is not None: return float(c)
    k, a = t.k, t.a
    if t is TRUE: return True
    if t is FALSE: return False
    if k == 'arg':
        if a[0] in env: return env[a[0]]
        raise Unknown(a[0])
    if k == 'lin': return sum(v(x) * c for x, c in a[0]) + (v(a[1]) if a[1] is not None else 0)
    if k == 'op':
        if a[0] in ('Eq', 'Ne') and len(a[1]) == 2:
            x, y = [bare(x) for x in a[1]]
            if x.k == y.k == 'arr' and len(x.a[0]) == len(y.a[0]): return all(v(p) == v(q) for p, q in zip(x.a[0], y.a[0])) == (a[0] == 'Eq')
        xs = [v(x) for x in a[1]]
        o = a[0]
        if o == 'Add': return xs[0] + xs[1]
        if o == 'Sub': return xs[0] - xs[1]
        if o == 'Mul': return xs[0] * xs[1]
        if o == 'Div': return xs[0] / xs[1] if xs[1] else math.copysign(math.inf, xs[0]) if xs[0] else math.nan
        if o == 'Neg': return -xs[0]
        if o == 'Not': return not xs[0]
        if o in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'): return {'Lt': xs[0] < xs[1], 'Le': xs[0] <= xs[1], 'Gt': xs[0] > xs[1], 'Ge': xs[0] >= xs[1], 'Eq': xs[0] == xs[1], 'Ne': xs[0] != xs[1]}[o]
        if o in FN: return FN[o](*xs)
        if o in ('And', 'BitAnd'): return all(xs)
        if o in ('Or', 'BitOr'): return any(xs)
    if k == 'call':
        f = FN.get(a[0].split('::')[-1])
        if f:
            xs = [v(x) for x in a[1]]
            return f(*xs)
    if k == 'elem':
        b = t.a[0]
        while b.k == 'adt' and len(b.a[3]) == 1: b = b.a[3][0]
        i = numeric(t.a[1])
        if b.k == 'arr' and i is not None and 0 <= i < len(b.a[0]): return v(b.a[0][int(i)])
    if k == 'gphi':
        for fs, x in a[0]:
            if all(bool(v(q)) == p for q, p in fs): return v(x)
    raise Unknown(show(t, 3))
def holds(fs, env):
    """do the conditions of a path hold; None when one has no meaning here"""
    r = True
    for t, p in fs:
        try:
            if bool(num(t, env)) != p: r = False
        except Unknown: return None
    return r
def values(t, env):
    """floats for nested lists of scalars"""
    while t.k == 'adt' and len(t.a[3]) == 1 and t.a[1] not in ('Ok', 'Err', 'Some'): t = t.a[3][0]
    if t.k in ('arr', 'tup'): return [values(x, env) for x in t.a[0]]
    return num(t, env)

def total(xs):
    r = cf(0.)
    for x in xs: r = fold('Add', r, x)
    return r
def mul(x, y):
    a, b = numeric(x), numeric(y)
    return x if b == 1 else y if a == 1 else fold('Mul', x, y)
def fn(nm, *xs):
    ns = [numeric(x) for x in xs]
    if None not in ns and nm in FN: return cf(FN[nm](*map(float, ns)))
    return mk('call', nm, tuple(xs))
SCALAR = {'sqrt', 'cos', 'sin', 'tan', 'acos', 'asin', 'atan2', 'exp', 'ln', 'signum', 'hypot', 'recip', 'floor', 'ceil', 'round', 'powf', 'simd_sqrt', 'sin_cos'}
CONSTS = {'pi': math.pi, 'two_pi': math.tau, 'frac_pi_2': math.pi / 2, 'frac_pi_3': math.pi / 3, 'frac_pi_4': math.pi / 4, 'frac_pi_6': math.pi / 6, 'frac_pi_8': math.pi / 8, 'e': math.e}
def vectors(I, st, name, info, a):
    """vector functions on explicit vectors, component by component, and elementary functions of constants"""
    nm = info['name']
    if nm in CONSTS and not a: return [(st, cf(CONSTS[nm]))]
    if nm in ('max_value', 'min_value') and not a and ('Real' in name or 'simba' in name): return [(st, some(cf(sys.float_info.max * (1 if nm == 'max_value' else -1))))]
    if nm in ('from_element', 'repeat') and len(a) == 1 and 'nalgebra' in name: return [(st, arr([I.value(st, a[0])] * I.consts['D']))]
    if nm in SCALAR and a:
        v = [I.value(st, x) for x in a]
        if any(x.k in ('arr', 'adt') for x in v): return None
        if nm == 'sin_cos': return [(st, tup(fn('sin', *v), fn('cos', *v)))]
        return [(st, fn(nm.replace('simd_', ''), *v))]
    if nm in ('dot', 'norm', 'magnitude', 'norm_squared', 'magnitude_squared', 'normalize', 'cross', 'component_mul', 'metric_distance', 'unscale', 'scale') and a:
        v = [bare(I.value(st, x)) for x in a]
        if v[0].k == 'adt' and len(v[0].a[3]) == 1 and v[0].a[3][0].k == 'arr': v[0] = v[0].a[3][0]
        if len(v) > 1 and v[1].k == 'adt' and len(v[1].a[3]) == 1 and v[1].a[3][0].k == 'arr': v[1] = v[1].a[3][0]
        if v[0].k != 'arr' or any(x.k in ('arr', 'adt') for x in v[0].a[0]): return None
        x = v[0].a[0]
        sq = lambda: total(mul(c, c) for c in x)
        if nm in ('norm', 'magnitude'): return [(st, fn('sqrt', sq()))]
        if nm in ('norm_squared', 'magnitude_squared'): return [(st, sq())]
        if nm == 'normalize':
            n = fn('sqrt', sq())
            return [(st, arr([op('Div', c, n) if numeric(n) != 1 else c for c in x]))]
        if nm == 'unscale': return [(st, arr([op('Div', c, v[1]) for c in x]))]
        if nm == 'scale': return [(st, arr([mul(c, v[1]) for c in x]))]
        if len(v) < 2 or v[1].k != 'arr' or len(v[1].a[0]) != len(x): return None
        y = v[1].a[0]
        if nm == 'dot': return [(st, total(mul(c, d) for c, d in zip(x, y)))]
        if nm == 'component_mul': return [(st, arr([mul(c, d) for c, d in zip(x, y)]))]
        if nm == 'metric_distance': return [(st, fn('sqrt', total(mul(fold('Sub', c, d), fold('Sub', c, d)) for c, d in zip(x, y))))]
        if nm == 'cross' and len(x) == 3: return [(st, arr([fold('Sub', mul(x[i], y[j]), mul(x[j], y[i])) for i, j in ((1, 2), (2, 0), (0, 1))]))]
    if nm == 'to_homogeneous' and len(a) == 1:
        v = bare(I.value(st, a[0]))
        if v.k == 'arr':
            pt = 'Point' in name or 'point' in name
            return [(st, arr(v.a[0] + (cf(1. if pt else 0.),)))]
    return None
def symbols(tag, n): return [arg('%s%d' % (tag, i)) for i in range(n)]
def assign(tags, seed, lo=-3., hi=3.):
    """{symbol: value}: tags {tag: n or explicit values}"""
    r = random.Random(seed)
    return {'%s%d' % (t, i): x for t, n in tags.items() for i, x in enumerate([r.uniform(lo, hi) for _ in range(n)] if isinstance(n, int) else n)}
def summary(ctx, f, args, D=3, more=None, **kw):
    """paths of a function: [(conditions, final first argument, result)]"""
    def over(I, st, name, info, a):
        r = more(I, st, name, info, a) if more else None
        return r if r is not None else vectors(I, st, name, info, a)
    return evaluate(ctx, f, dict(zip(names(f), args)), D, more=over, **kw)
def point(spec, cps, u, d=0):
    """numeric point (homogeneous quotient) of a spline with numeric homogeneous control points"""
    B = basis(spec[0], spec[1], u, d)
    h = [sum(float(b) * c[k] for b, c in zip(B, cps)) for k in range(len(cps[0]))]
    return [x / h[-1] for x in h[:-1]]
class Witness(Case):
    """follows the path that an assignment of the symbols takes, so that a result is one term"""
    def __init__(self, env):
        super().__init__()
        self.env, self.memo = env, {}
    def cond(self, c):
        try: return bool(num(c, self.env, self.memo))
        except Unknown: return super().cond(c)

def near(a, b, tol=1e-7): return len(a) == len(b) and all(abs(x - y) <= tol * max(1., abs(y)) for x, y in zip(a, b))
def axpy(*vs): return [sum(c * v[i] for c, v in vs) for i in range(len(vs[0][1]))]
def nrm(v): return math.sqrt(sum(x * x for x in v))
def vget(env, t, n): return [env['%s%d' % (t, i)] for i in range(n)]
def curve_of(t, env):
    """(degree, knots, control points) as numbers; the knots may be terms"""
    if t is None or t == 'err' or t.k != 'adt' or not {'degree', 'knots', 'control_points'} <= set(t.a[2]): return None
    d = numeric(fld(t, 'degree'))
    try: ks, cp = values(fld(t, 'knots'), env), values(fld(t, 'control_points'), env)
    except Unknown: return None
    while len(ks) == 1 and isinstance(ks[0], list): ks = ks[0]
    return None if d is None else (int(d), ks, cp)
def surface_of(t, env):
    if t is None or t == 'err' or t.k != 'adt' or not {'u_degree', 'v_degree', 'u_knots', 'v_knots', 'control_points'} <= set(t.a[2]): return None
    p, q = numeric(fld(t, 'u_degree')), numeric(fld(t, 'v_degree'))
    try: U, V, cp = [values(fld(t, x), env) for x in ('u_knots', 'v_knots', 'control_points')]
    except Unknown: return None
    return None if p is None or q is None else ((int(p), U), (int(q), V), cp)
def bad(c):
    p, ks, cp = c
    if len(ks) != len(cp) + p + 1: return '%d knots for %d control points of degree %d' % (len(ks), len(cp), p)
    if any(x > y for x, y in zip(ks, ks[1:])): return 'knots out of order'
    if not all(math.isfinite(x) for q in cp for x in q): return 'control points are not finite'
    return ''
def spans(p, ks):
    lo, hi = domain(p, ks)
    us = sorted({x for x in ks if lo <= x <= hi})
    return [(a, b) for a, b in zip(us, us[1:]) if b - a > 1e-12]
def within(a, b, n): return [a + (b - a) * (i + 1) / (n + 1) for i in range(n)]

def verdicts(ctx, rule, inst, f, args, D, envs, test, **kw):
    """the function is interpreted with symbols along the path each assignment takes; the resulting terms are compared at the assignment"""
    for j, env in enumerate(envs):
        at = '%s, assignment %d' % (inst, j)
        outs = summary(ctx, f, args, D, case=Witness(env), **kw)
        if outs is None: ctx.skip(rule, at, 'not interpreted'); continue
        odd = [fs for fs, me, r in outs if holds(fs, env) is None]
        if odd: ctx.skip(rule, at, 'condition without a meaning: %s' % showf(odd[0], 3)[:80]); continue
        taken = [r for fs, me, r in outs if holds(fs, env)]
        if len(taken) != 1:
            if not taken: ctx.ob(rule, inst, False, f.span, '%s panics' % inst)
            else: ctx.skip(rule, at, '%d paths' % len(taken))
            continue
        d = test(taken[0], env)
        if d is None: ctx.skip(rule, at, show(taken[0], 4)[:100]); continue
        ctx.ob(rule, inst, d == '', f.span, '%s %s' % (inst, d)); ctx.count('shapes compared')

def spoint(s, u, v):
    (p, U), (q, V), cp = s
    rows = [[sum(float(b) * r[j][k] for b, r in zip(basis(p, U, u), cp)) for k in range(len(cp[0][0]))] for j in range(len(cp[0]))]
    return point((q, V), rows, v)
def sbad(s):
    (p, U), (q, V), cp = s
    if len({len(r) for r in cp}) != 1: return 'has rows of different lengths'
    return bad((p, U, [r[0] for r in cp])) or bad((q, V, cp[0])) or ('' if all(math.isfinite(x) for r in cp for c in r for x in c) else 'control points are not finite')
def grid(s, extra=0):
    (p, U), (q, V), cp = s
    us = sorted({x for a, b in spans(p, U) for x in [a, b] + within(a, b, p + 1 + extra)})
    vs = sorted({x for a, b in spans(q, V) for x in [a, b] + within(a, b, q + 1)})
    return us, vs
def profile(spec, dim, tag='P'):
    """symbolic control points already weighted, as numbers of an assignment"""
    n = len(spec[1]) - spec[0] - 1
    return lambda env: [[env['%s%d_%d' % (tag, i, c)] for c in range(dim - 1)] + [weight(i)] for i in range(n)]
def penv(spec, dim, more, seed):
    r = random.Random(seed)
    e = assign(more, seed + 100)
    for i in range(len(spec[1]) - spec[0] - 1):
        for c in range(dim - 1): e['P%d_%d' % (i, c)] = r.uniform(-2, 2)
    return e
