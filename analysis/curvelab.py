"""Abstract curves and surfaces: constant degrees, knots that stand for an order type, symbolic control points; and a stand-in for knot refinement
that yields fresh control points identified by what was inserted into what."""
from vf import *
from meshlab import *
F64_EPS = 2.220446049250313e-16

def curve(m, p, ks, P):
    k = knots(m, ks)
    return build(m, 'NurbsCurve', {'degree': ci(p), 'control_points': arr(P), 'knots': k}) if k is not None else None
def numbers(t):
    """constant sequence as python numbers, or None"""
    if t is None or t.k not in ('arr', 'tup'): return None
    r = [numeric(x) for x in t.a[0]]
    return None if None in r else [float(x) for x in r]
def knots_of(t):
    """constant knots of a KnotVector value"""
    if t is None: return None
    if t.k == 'adt' and len(t.a[3]) == 1: t = t.a[3][0]
    return numbers(t)
def curve_parts(t):
    """(degree, knots, control points) of an explicit curve value"""
    if t.k != 'adt' or not {'degree', 'knots', 'control_points'} <= set(t.a[2]): return None
    d, k, c = numeric(fld(t, 'degree')), knots_of(fld(t, 'knots')), fld(t, 'control_points')
    if d is None or k is None or c.k != 'arr': return None
    return int(d), k, list(c.a[0])
def refined(base, ks, ins, j):
    """control point j of the curve with control points `base` after inserting `ins`"""
    return base[j] if not ins else mk('call', 'refined', (arr(base), arr([cf(x) for x in ins]), ci(j)))
def refine_over(I, st, nm, a):
    """stand-in for NurbsCurve::try_refine_knot / try_add_knot on an explicit curve behind a reference"""
    if nm not in ('try_refine_knot', 'try_add_knot') or len(a) != 2: return None
    r = a[0]
    while r.k == 'ref' and I.get(st, r.a[0], r.a[1]).k == 'ref': r = I.get(st, r.a[0], r.a[1])
    if r.k != 'ref': return None
    c = curve_parts(I.value(st, r))
    x = I.value(st, a[1])
    ins = numbers(x) if nm == 'try_refine_knot' else numbers(arr([x]))
    if c is None or ins is None: return None
    d, ks, cp = c
    base, had = cp, []
    if cp and cp[0].k == 'call' and cp[0].a[0] == 'refined': base, had = list(cp[0].a[1][0].a[0]), numbers(cp[0].a[1][1])
    tot = sorted(had + ins)
    new = [refined(base, None, tot, j) for j in range(len(base) + len(tot))]
    s2 = st.copy()
    v = I.value(st, r)
    kv = knots(I.m, sorted(ks + ins))
    I.put(s2, r.a[0], r.a[1], build(I.m, 'NurbsCurve', {'degree': ci(d), 'control_points': arr(new), 'knots': kv}))
    return [(s2, ok(UNIT))]
def eps_over(nm, a):
    return cf(F64_EPS) if nm in ('default_epsilon', 'epsilon') and not a else None
def comp2(t, i):
    if t.k == 'arr': return t.a[0][i]
    if t.k == 'op' and t.a[0] in ('Add', 'Sub'): return op(t.a[0], comp2(t.a[1][0], i), comp2(t.a[1][1], i))
    if t.k == 'op' and t.a[0] == 'Neg': return op('Sub', cf(0), comp2(t.a[1][0], i))
    if t.k == 'op' and t.a[0] in ('Mul', 'Div'):
        a, b = t.a[1]
        return op(t.a[0], comp2(a, i) if vec(a) else a, comp2(b, i) if vec(b) else b)
    if t.k == 'lin':
        r = None
        for x, c in t.a[0]:
            y = comp2(x, i)
            y = y if c == 1 else op('Mul', cf(float(c)), y)
            r = y if r is None else op('Add', r, y)
        return r
    return elem(t, ci(i))
def vec(t): return bool(find(t, lambda x: x.k == 'arr'))
def coords(t):
    """numbers of a sum or difference of constant points"""
    n = {len(x.a[0]) for x in find(t, lambda x: x.k == 'arr')}
    if len(n) != 1: return None
    xs = [numeric(comp2(t, i)) for i in range(n.pop())]
    return None if None in xs else [float(x) for x in xs]
