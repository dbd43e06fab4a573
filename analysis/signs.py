"""Signs of formulas over sign-constrained atoms: each atom is positive, zero or free; a condition is decided when the polynomials in it
have coefficients of one sign."""
from sym import *
import poly

def opargs(t, *names): return t.k == 'op' and t.a[0] in names
class Case:
    """pos: atoms known to be > 0; zero: atoms known to be = 0; huge: atoms larger than any combination of the others"""
    def __init__(self, pos=(), zero=(), huge=lambda t: False, ranges=None):
        self.pos, self.zero, self.huge = {t.n for t in pos}, {t.n for t in zero}, huge
        self.N = poly.Norm(self.atom)
        self.hn = {}
        self.why = None
    def atom(self, t): return t
    def polysign(self, p):
        p = {k: v for k, v in p.items() if not any(a in self.zero for a, e in k)}
        if not p: return 0
        big = [(k, v) for k, v in p.items() if any(self.ishuge(a) for a, e in k)]
        if big:
            if all(len(k) == 1 and k[0][1] == 1 for k, v in big) and len({v > 0 for k, v in big}) == 1: return 1 if big[0][1] > 0 else -1
            return None
        s = set()
        for k, v in p.items():
            if not all(a in self.pos or e % 2 == 0 and False for a, e in k): return None
            s.add(v > 0)
        return None if len(s) > 1 else 1 if True in s else -1
    def ishuge(self, a):
        r = self.hn.get(a)
        if r is None: r = self.hn[a] = bool(self.huge(self.N.atoms[a]))
        return r
    def reduce(self, t, d=12):
        """pick the branch of min, max, abs and guarded values where the case decides it"""
        if d == 0: return t
        if opargs(t, 'min', 'max') and len(t.a[1]) == 2:
            x, y = (self.reduce(z, d - 1) for z in t.a[1])
            s = self.sign(op('Sub', x, y))
            if s is None: return op(t.a[0], x, y)
            return (x if s <= 0 else y) if t.a[0] == 'min' else (x if s >= 0 else y)
        if t.k == 'call' and t.a[0].split('::')[-1] in ('abs',) and len(t.a[1]) == 1:
            x = self.reduce(t.a[1][0], d - 1); s = self.sign(x)
            return t if s is None else x if s >= 0 else op('Sub', cf(0), x)
        if t.k == 'gphi':
            live = [(f, x) for f, x in t.a[0] if self.facts(f) is not False]      # guards may overlap
            vals = {self.reduce(x, d - 1) for f, x in live}
            return vals.pop() if len(vals) == 1 else t
        if t.k == 'op' and t.a[0] in ('Add', 'Sub', 'Mul', 'Div', 'Neg'):
            return op(t.a[0], *[self.reduce(z, d - 1) for z in t.a[1]])
        if t.k == 'lin':
            r = None
            for x, c in t.a[0]:
                y = self.reduce(x, d - 1)
                y = y if c == 1 else op('Mul', cf(float(c)), y)
                r = y if r is None else op('Add', r, y)
            return r if t.a[1] is None else op('Add', r, t.a[1])
        return t
    def sign(self, t):
        try: n, d = self.N.rat(self.reduce(t) if has_choice(t) else t)
        except OverflowError: return None
        a, b = self.polysign(n), self.polysign(d)
        return None if a is None or b in (None, 0) else a * b
    def cond(self, c):
        """True, False or None"""
        if c is TRUE or c is FALSE: return c is TRUE
        if c.k == 'op':
            o, a = c.a[0], c.a[1]
            if o == 'Not':
                r = self.cond(a[0]); return None if r is None else not r
            if o in ('BitAnd', 'And'):
                r = [self.cond(x) for x in a]
                return False if False in r else True if all(x is True for x in r) else None
            if o in ('BitOr', 'Or'):
                r = [self.cond(x) for x in a]
                return True if True in r else False if all(x is False for x in r) else None
            if o in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne') and len(a) == 2:
                if a[0] is a[1]: return o in ('Le', 'Ge', 'Eq')
                s = self.sign(op('Sub', a[0], a[1]))
                if s is None: return None
                return {'Lt': s < 0, 'Le': s <= 0, 'Gt': s > 0, 'Ge': s >= 0, 'Eq': s == 0, 'Ne': s != 0}[o]
        if c.k == 'gphi':
            res = set()
            for f, x in c.a[0]:
                if self.facts(f) is not False: res.add(self.cond(x))
            return res.pop() if len(res) == 1 else None
        if c.k == 'is' and c.a[0].k == 'call' and c.a[0].a[0].split('::')[-1] == 'cmp' and len(c.a[0].a[1]) == 2:
            s = self.sign(op('Sub', *c.a[0].a[1]))
            if s is None: return None
            return {'Less': s < 0, 'Equal': s == 0, 'Greater': s > 0}.get(c.a[1])
        return None
    def facts(self, fs):
        r = True
        for c, p in fs:
            v = self.cond(c)
            if v is None: r = None
            elif v != p: return False
        return r
    def same(self, x, y):
        """equal, False when definitely different, None otherwise"""
        s = self.sign(op('Sub', x, y))
        return None if s is None else s == 0
_choice = {}
def has_choice(t):
    r = _choice.get(t.n)
    if r is None:
        r = _choice[t.n] = opargs(t, 'min', 'max') or t.k in ('gphi', 'call') or any(has_choice(x) for x in children(t))
    return r
def subsets(xs):
    xs = list(xs)
    for k in range(2 ** len(xs)):
        yield [x for i, x in enumerate(xs) if k >> i & 1], [x for i, x in enumerate(xs) if not k >> i & 1]
