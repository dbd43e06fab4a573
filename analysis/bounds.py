"""Order reasoning on value terms: is x >= y implied by the comparisons on the path (sums of at most three of them)."""
from sym import *
import poly, itertools

class Lin(poly.Norm):
    """linear combinations of atoms only"""
    def _rat(self, t):
        if t.k == 'op' and (t.a[0] == 'Div' or t.a[0] == 'Mul' and not any(numeric(x) is not None for x in t.a[1])): return self.leaf(t)
        return super()._rat(t)
def gens(facts, extra=()):
    """pairs (greater, smaller) known on the path"""
    out = list(extra)
    for c, p in facts:
        if c.k == 'op' and c.a[0] in ('Lt', 'Le') and len(c.a[1]) == 2:
            a, b = c.a[1]
            out.append((b, a) if p else (a, b))
        elif c.k == 'op' and c.a[0] == 'Eq' and p:
            a, b = c.a[1]
            out += [(a, b), (b, a)]
    return out
def nonneg(N, d, gs):
    num, den = d
    if den != poly.ONE: return False
    if not num: return True
    if set(num) == {()}: return num[()] >= 0
    gp = []
    for a, b in gs:
        n, dd = N.sub(a, b)
        if dd == poly.ONE and n: gp.append(n)
    gp = gp[:14]
    for k in (1, 2, 3):
        for combo in itertools.combinations(gp, k):
            r = num
            for g in combo: r = poly.padd(r, g, -1)
            if not r or set(r) == {()} and r[()] >= 0: return True
    return False
def geq(x, y, facts, extra=(), N=None, d=6):
    """x >= y is implied"""
    N = N or Lin()
    if x is y: return True
    if d:
        if x.k == 'op' and x.a[0] in ('max', 'min'): return (any if x.a[0] == 'max' else all)(geq(z, y, facts, extra, N, d - 1) for z in x.a[1])
        if y.k == 'op' and y.a[0] in ('max', 'min'): return (any if y.a[0] == 'min' else all)(geq(x, z, facts, extra, N, d - 1) for z in y.a[1])
        if x.k == 'gphi': return all(contradictory(facts | f) or geq(z, y, facts | f, extra, N, d - 1) for f, z in x.a[0])
        if y.k == 'gphi': return all(contradictory(facts | f) or geq(x, z, facts | f, extra, N, d - 1) for f, z in y.a[0])
    try: return nonneg(N, N.sub(x, y), gens(facts, extra))
    except OverflowError: return False
