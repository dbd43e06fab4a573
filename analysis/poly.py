"""Rational-function normal form of value terms: sums, products and quotients of atoms (any other term) with exact coefficients.
Two terms are equal as formulas when their cross-multiplied numerators agree."""
from fractions import Fraction
from sym import *

def padd(p, q, s=1):
    r = dict(p)
    for k, v in q.items():
        r[k] = r.get(k, 0) + s * v
        if not r[k]: del r[k]
    return r
def pmul(p, q, limit=20000):
    r = {}
    if len(p) * len(q) > limit: raise OverflowError
    for a, x in p.items():
        for b, y in q.items():
            d = dict(a)
            for k, e in b: d[k] = d.get(k, 0) + e
            k = tuple(sorted(d.items()))
            r[k] = r.get(k, 0) + x * y
            if not r[k]: del r[k]
    return r
ONE = {(): Fraction(1)}
def const(c): return {(): Fraction(c)} if c else {}

class Norm:
    """rat(term) -> (numerator, denominator); atoms keeps the term of each atom number"""
    def __init__(self, atom=None):
        self.memo, self.atoms, self.atom = {}, {}, atom
    def leaf(self, t):
        t = self.atom(t) if self.atom else t
        self.atoms[t.n] = t
        return {((t.n, 1),): Fraction(1)}, ONE
    def rat(self, t):
        r = self.memo.get(t)
        if r is None: r = self.memo[t] = self._rat(t)
        return r
    def add(self, x, y, s=1):
        (a, b), (c, d) = x, y
        if b == d: return padd(a, c, s), b
        return padd(pmul(a, d), pmul(c, b), s), pmul(b, d)
    def mul(self, x, y):
        (a, b), (c, d) = x, y
        return pmul(a, c), (b if d == ONE else d if b == ONE else pmul(b, d))
    def _rat(self, t):
        if t.k == 'c' and t.a[0] in ('i', 'f'): return const(Fraction(t.a[1]) if t.a[0] == 'i' else Fraction(float(t.a[1]))), ONE
        if t.k == 'lin':
            r = ({}, ONE)
            for x, c in t.a[0]: r = self.add(r, self.mul((const(c), ONE), self.rat(x)))
            return r if t.a[1] is None else self.add(r, self.rat(t.a[1]))
        if t.k == 'op':
            o, a = t.a[0], t.a[1]
            if o in ('Add', 'Sub'): return self.add(self.rat(a[0]), self.rat(a[1]), 1 if o == 'Add' else -1)
            if o == 'Mul': return self.mul(self.rat(a[0]), self.rat(a[1]))
            if o == 'Div':
                n, d = self.rat(a[1])
                return self.mul(self.rat(a[0]), (d, n))
            if o == 'Neg': return self.mul((const(-1), ONE), self.rat(a[0]))
        return self.leaf(t)
    def equal(self, x, y):
        (a, b), (c, d) = self.rat(x), self.rat(y)
        return pmul(a, d) == pmul(c, b)
    def sub(self, x, y): return self.add(self.rat(x), self.rat(y), -1)
def same(x, y, atom=None):
    """equal as rational functions; None when too large"""
    try: return Norm(atom).equal(x, y)
    except OverflowError: return None
