"""Compares a curve or surface value with linear-form control points with a reference spline, as homogeneous splines over a parameter range."""
from evallab import *

def forms(cp):
    """control points as lists of linear forms"""
    out = []
    for p in cp:
        while p.k == 'adt' and len(p.a[3]) == 1: p = p.a[3][0]
        if p.k != 'arr': return None
        f = [lin(x) for x in p.a[0]]
        if None in f: return None
        out.append(f)
    return out
def combine(B, F):
    dim = len(F[0])
    out = [{} for _ in range(dim)]
    for b, f in zip(B, F):
        if b:
            for c in range(dim): out[c] = ladd(out[c], lmul(f[c], float(b)))
    return out
def refforms(spec, tag='P', dim=3, wt=weight):
    return [[{'%s%d_%d' % (tag, i, c): 1.} for c in range(dim - 1)] + [{'': wt(i)}] for i in range(len(spec[1]) - spec[0] - 1)]
def read(t):
    """(spec, forms) of a curve value, None when not explicit"""
    c = curve_parts(t)
    if c is None: return None
    p, ks, cp = c
    F = forms(cp)
    return None if F is None else ((p, ks), F)
def wellformed(spec, F):
    p, ks = spec
    if len(ks) != len(F) + p + 1: return '%d knots for %d control points of degree %d' % (len(ks), len(F), p)
    if any(a > b for a, b in zip(ks, ks[1:])): return 'knots out of order: %s' % ks
    return ''
def agreeing(sa, Fa, sb, Fb, lo, hi):
    """'' when both describe the same homogeneous spline on [lo, hi], else the difference"""
    us = sorted(x for x in set(sa[1]) | set(sb[1]) if lo <= x <= hi)
    us = sorted(set(us) | {lo, hi})
    n = max(sa[0], sb[0]) + 1
    for a, b in zip(us, us[1:]):
        if b - a < 1e-9: continue
        for i in range(n):
            u = a + (b - a) * (i + 1) / (n + 1)
            x, y = combine(basis(sa[0], sa[1], u), Fa), combine(basis(sb[0], sb[1], u), Fb)
            for c, (f, g) in enumerate(zip(x, y)):
                if not close(f, g, 1e-6): return 'at %g coordinate %d is %s instead of %s' % (u, c, lshow(f), lshow(g))
    return ''
def ok_of(r):
    """payload of Ok, 'err' for Err, None when undecided"""
    if r is None or r.k != 'adt': return None
    if r.a[1] == 'Ok': return r.a[3][0]
    return 'err' if r.a[1] == 'Err' else None
def same_curve(t, spec, F=None, lo=None, hi=None, full=True):
    """'' / difference / None: the value against the reference spline; full: its domain has to be [lo, hi]"""
    if t is None or t == 'err': return None if t is None else 'gives an error'
    x = read(t)
    if x is None: return None
    s, G = x
    w = wellformed(s, G)
    if w: return w
    a, b = domain(*spec)
    lo, hi = a if lo is None else lo, b if hi is None else hi
    d = domain(*s)
    if full and not (s[1][s[0] + 1] > d[0] and s[1][-s[0] - 2] < d[1]): return 'has no span at an end of its domain: %s' % s[1]
    if full and (abs(d[0] - lo) > 1e-9 or abs(d[1] - hi) > 1e-9): return 'has domain %g..%g instead of %g..%g' % (d + (lo, hi))
    return agreeing(s, G, spec, F or refforms(spec), lo, hi)
def readsurf(t):
    """(spec u, spec v, forms of rows) of an explicit surface value"""
    if t.k != 'adt' or not {'u_degree', 'v_degree', 'u_knots', 'v_knots', 'control_points'} <= set(t.a[2]): return None
    p, q, U, V, c = numeric(fld(t, 'u_degree')), numeric(fld(t, 'v_degree')), knots_of(fld(t, 'u_knots')), knots_of(fld(t, 'v_knots')), fld(t, 'control_points')
    if None in (p, q, U, V) or c.k != 'arr' or any(r.k != 'arr' for r in c.a[0]): return None
    rows = [forms(r.a[0]) for r in c.a[0]]
    return None if None in rows else ((int(p), U), (int(q), V), rows)
def refrows(a, b, dim=4, tag='P'):
    nv = len(b[1]) - b[0] - 1
    return [[[{'%s%d_%d_%d' % (tag, i, j, c): 1.} for c in range(dim - 1)] + [{'': weight(i * nv + 2 * j + i)}] for j in range(nv)] for i in range(len(a[1]) - a[0] - 1)]
def same_surface(t, a, b, ru=None, rv=None, rows=None, full=True):
    """'' / difference / None: the value against the reference surface of knots a, b on the ranges ru, rv, which have to be its domain"""
    if t is None or t == 'err': return None if t is None else 'gives an error'
    x = readsurf(t)
    if x is None: return None
    su, sv, R = x
    rows = rows or refrows(a, b)
    if len({len(r) for r in R}) != 1: return 'rows of different lengths'
    for s, n, ref, rg, w in ((su, len(R), a, ru, 'u'), (sv, len(R[0]), b, rv, 'v')):
        if len(s[1]) != n + s[0] + 1: return '%d %s knots for %d control points of degree %d' % (len(s[1]), w, n, s[0])
        if any(x > y for x, y in zip(s[1], s[1][1:])): return '%s knots out of order: %s' % (w, s[1])
        want, d = rg or domain(*ref), domain(*s)
        if full and not (s[1][s[0] + 1] > d[0] and s[1][-s[0] - 2] < d[1]): return 'has no %s span at an end of its domain: %s' % (w, s[1])
        if abs(d[0] - want[0]) > 1e-9 or abs(d[1] - want[1]) > 1e-9: return 'has %s domain %g..%g instead of %g..%g' % ((w,) + d + tuple(want))
    def at(s, lo, hi, o):
        us = sorted({x for x in s[1] + o[1] if lo < x < hi} | {lo, hi})
        n = max(s[0], o[0]) + 1
        return [x + (y - x) * (i + 1) / (n + 1) for x, y in zip(us, us[1:]) if y - x > 1e-9 for i in range(n)]
    U, V = at(su, *(ru or domain(*a)), a), at(sv, *(rv or domain(*b)), b)
    # the tensor product is decided one direction at a time: rows at u, then the resulting splines in v
    nv, mv = len(R[0]), len(rows[0])
    for u in U:
        B, C = basis(su[0], su[1], u), basis(a[0], a[1], u)
        F = [combine(B, [r[j] for r in R]) for j in range(nv)]
        G = [combine(C, [r[j] for r in rows]) for j in range(mv)]
        for v in V:
            x, y = combine(basis(sv[0], sv[1], v), F), combine(basis(b[0], b[1], v), G)
            for c, (f, g) in enumerate(zip(x, y)):
                if not close(f, g, 1e-6): return 'at (%g, %g) coordinate %d is %s instead of %s' % (u, v, c, lshow(f), lshow(g))
    return ''
