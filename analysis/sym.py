"""Forward abstract interpreter over MIR with hash-consed value terms.

Values are terms (global value numbering); shared references are the value they point to (no interior mutability is left
unmodelled: Rc/RefCell contents live in a heap part of the store); mutable references are locations.  States are kept
disjunctive per branch decision up to a cap and joined with guarded choices beyond it; loops are widened at their head.
Local callees and closures are inlined, iterator pipelines are modelled by their generic element.
Nothing is executed and no solver is asked: unknown conditions are explored both ways, unknown values are opaque terms."""
import re, sys
from mir import *

# ---- terms -----------------------------------------------------------------------------------
class T:
    __slots__ = ('k', 'a', 'n', 'lv')
    def __init__(s, k, a, n): s.k, s.a, s.n, s.lv = k, a, n, None
    def __repr__(s): return show(s)
    def __lt__(s, o): return s.n < o.n
_tab = {}
def mk(k, *a):
    key = (k, a)
    t = _tab.get(key)
    if t is None:
        t = _tab[key] = T(k, a, len(_tab))
    return t
def ci(v): return mk('c', 'i', int(v))
def cf(v): return mk('c', 'f', repr(float(v)))
def cs(v): return mk('c', 's', v)
TRUE, FALSE = ci(1), ci(0)
UNIT = mk('tup', ())
def tup(*v): return mk('tup', tuple(v))
def arr(v): return mk('arr', tuple(v))
def adt(path, var, names, vals): return mk('adt', path, var, tuple(names), tuple(vals))
COW = 'std::borrow::Cow'
OPT, RES, CF, ORD = 'std::option::Option', 'std::result::Result', 'std::ops::ControlFlow', 'std::cmp::Ordering'
NONE = adt(OPT, 'None', (), ())
def some(x): return adt(OPT, 'Some', ('0',), (x,))
def ok(x): return adt(RES, 'Ok', ('0',), (x,))
def err(x): return adt(RES, 'Err', ('0',), (x,))
def is_adt(t, path, var=None): return t.k == 'adt' and t.a[0] == path and (var is None or t.a[1] == var)
EMPTY = frozenset()

def show(t, d=7):
    if not isinstance(t, T): return str(t)
    if d == 0: return '..'
    k, a = t.k, t.a
    s = lambda x: show(x, d - 1)
    if k == 'c': return str(a[1]) if a[0] != 's' else repr(a[1])
    if k == 'arg': return a[0]
    if k == 'f': return '%s.%s' % (s(a[0]), a[1])
    if k == 'vf': return '(%s as %s).%s' % (s(a[0]), a[1], a[2])
    if k == 'elem': return '%s[%s]' % (s(a[0]), s(a[1]))
    if k == 'adt':
        nm = a[0].split('::')[-1] + ('::' + a[1] if a[1] != a[0].split('::')[-1] else '')
        return '%s{%s}' % (nm, ', '.join(('%s: ' % n if not n.isdigit() else '') + s(v) for n, v in zip(a[2], a[3])))
    if k == 'tup': return '(%s)' % ', '.join(map(s, a[0]))
    if k == 'arr': return '[%s]' % ', '.join(map(s, a[0]))
    if k == 'call': return '%s(%s)' % (a[0], ', '.join(map(s, a[1])))
    if k == 'op': return '%s(%s)' % (a[0], ', '.join(map(s, a[1])))
    if k == 'gphi': return '<%s>' % ' | '.join(('{%s} ' % showf(f, d - 1) if f else '') + s(x) for f, x in a[0])
    if k == 'rng': return 'i%d(%s..%s%s)' % (t.n, s(a[1]), s(a[2]), ';' + ','.join(a[3]) if a[3] else '')
    if k == 'lin': return '(%s%s)' % (' '.join('%s%s%s' % ('+' if c > 0 else '-', abs(c) if abs(c) != 1 else '', s(x)) for x, c in a[0]), '' if a[1] is None else ' + ' + s(a[1]))
    if k == 'loop': return 'L%d:%s' % (t.n, a[2])
    if k == 'seq': return 'seq(%s for %s%s)' % (s(a[0]), s(a[3]) if isinstance(a[3], T) else a[3], ';' + ','.join(x if isinstance(x, str) else x[0] + ' ' + s(x[1]) for x in a[2]) if a[2] else '')
    if k == 'cat': return 'cat(%s)' % ', '.join(map(s, a[0]))
    if k == 'opt': return 'opt(%s ? %s)' % (s(a[0]), s(a[1]))
    if k == 'clo': return '|%s|' % re.sub(r'.*::(\w+::)?\{closure', '{closure', a[0])
    if k == 'fn': return 'fn ' + a[0]
    if k == 'ref': return '&mut %s%s' % (a[0][1:2], ''.join('.' + (str(p[1]) if not isinstance(p[1], T) else '[%s]' % s(p[1])) for p in a[1]))
    return '%s(%s)' % (k, ', '.join(s(x) if isinstance(x, T) else str(x) for x in a))
def showf(fs, d=5): return ' & '.join(('' if p else '!') + show(t, d) for t, p in sorted(fs, key=lambda x: x[0].n))

def children(t):
    """sub-terms of a term"""
    k, a = t.k, t.a
    def walk(x):
        if isinstance(x, T): yield x
        elif isinstance(x, (tuple, frozenset)):
            for y in x:
                yield from walk(y)
    for x in a: yield from walk(x)

def leaves(t):
    return set(find(t, lambda y: True))

def subst(t, m, memo=None, lo=None):
    """simultaneous replacement of sub-terms (a term only contains terms created before it)"""
    if memo is None:
        if not m: return t
        memo = {}
        lo = min(x.n for x in m)
    if t in m: return m[t]
    if t.n < lo: return t
    r = memo.get(t)
    if r is not None: return r
    def walk(x):
        if isinstance(x, T): return subst(x, m, memo, lo)
        if isinstance(x, tuple): return tuple(map(walk, x))
        if isinstance(x, frozenset): return frozenset(map(walk, x))
        return x
    a = tuple(map(walk, t.a))
    r = t if a == t.a else rebuild(t.k, a)
    memo[t] = r
    return r
def contains(t, x):
    """does term t contain term x"""
    seen = set()
    st = [t]
    while st:
        y = st.pop()
        if y is x: return True
        if y.n <= x.n or y in seen: continue
        seen.add(y)
        st += children(y)
    return False
def find(t, pred):
    """all sub-terms satisfying pred"""
    seen, st, out = set(), [t], []
    while st:
        y = st.pop()
        if y in seen: continue
        seen.add(y)
        if pred(y): out.append(y)
        st += children(y)
    return out

def rebuild(k, a):
    if k == 'f': return project(a[0], a[1])
    if k == 'vf': return vproject(a[0], a[1], a[2])
    if k == 'is': return is_var(a[0], a[1])
    if k == 'elem': return elem(a[0], a[1])
    if k == 'op': return op(a[0], *a[1])
    if k == 'gphi': return gphi(a[0])
    if k == 'cat': return cat(a[0])
    if k == 'upd': return upd(a[0], a[1], a[2])
    if k == 'lin': return linsub(a[0], a[1])
    if k == 'call' and a[0] == 'len': return length(a[1][0])
    return mk(k, *a)


def gphi(alts, limit=24):
    """guarded choice: alternatives ((facts, term), ...)"""
    out = {}
    def add(fs, t):
        if t.k == 'gphi':
            for f2, t2 in t.a[0]:
                f = fs | f2
                if not contradictory(f): add(f, t2)
        else:
            if t in out: out[t] = join_guards(out[t], fs)
            else: out[t] = fs
    for fs, t in alts: add(frozenset(fs), t)
    if len(out) == 1:
        t, fs = next(iter(out.items()))
        return t
    if len(out) == 2:
        # boolean choice on one condition
        (t1, f1), (t2, f2) = out.items()
        if {t1, t2} == {TRUE, FALSE}:
            ft, ff = (f1, f2) if t1 is TRUE else (f2, f1)
            if len(ft) == 1 and len(ff) == 1:
                (c, p), (c2, p2) = next(iter(ft)), next(iter(ff))
                if c is c2 and p != p2: return c if p else op('Not', c)
    if len(out) > limit:
        return mk('phi', tuple(sorted(out, key=lambda x: x.n)))
    return mk('gphi', tuple((fs, t) for t, fs in out.items()))

def join_guards(a, b):
    """weakest guard covering both; (a & c) | (a & !c) = a"""
    return a & b

def contradictory(fs):
    pos = {}
    for t, p in fs:
        if (t, not p) in fs: return True
        if t.k == 'is' and p:
            v = pos.setdefault(t.a[0], t.a[1])
            if v != t.a[1]: return True
        elif t.k == 'op':
            o, a = t.a[0], t.a[1]
            if p and o == 'Eq' and a[1].k == 'c':
                v = pos.setdefault(('eq', a[0]), a[1])
                if v is not a[1]: return True
            if p and o in ('Lt', 'Le'):
                r = _tab.get(('op', ('Lt', (a[1], a[0]))))
                if r is not None and (r, True) in fs: return True
                if o == 'Lt':
                    r = _tab.get(('op', ('Le', (a[1], a[0]))))
                    if r is not None and (r, True) in fs: return True
                    for q in ((a[0], a[1]), (a[1], a[0])):
                        r = _tab.get(('op', ('Eq', q)))
                        if r is not None and (r, True) in fs: return True
    return False

COORD = {'x': 0, 'y': 1, 'z': 2, 'w': 3}
IDENT_FIELDS = {'coords', 'pointer'}
def project(t, name):
    k = t.k
    if k == 'adt':
        if t.a[0] == COW and name == '0': return t.a[3][0]
        for n, v in zip(t.a[2], t.a[3]):
            if n == name: return v
        if name.isdigit() and int(name) < len(t.a[3]): return t.a[3][int(name)]
        if name in COORD and t.a[2] == ('coords',) and t.a[3][0].k == 'arr': return elem(t.a[3][0], ci(COORD[name]))
    elif k in ('tup', 'arr'):
        if name.isdigit() and int(name) < len(t.a[0]): return t.a[0][int(name)]
    elif k == 'clo':
        if name.isdigit() and int(name) < len(t.a[1]): return t.a[1][int(name)]
    elif k == 'upd':
        if t.a[1] == name: return t.a[2]
        if not t.a[1].startswith('@') and name not in COORD: return project(t.a[0], name)
    elif k == 'gphi':
        return gphi(tuple((f, project(x, name)) for f, x in t.a[0]))
    elif k in ('ref', 'rc'): return t
    if name in IDENT_FIELDS: return t
    if name in COORD and k != 'adt': return elem(t, ci(COORD[name]))
    return mk('f', t, name)

def vproject(t, var, name):
    k = t.k
    if k == 'adt':
        if t.a[1] == var: return project(t, name)
        return mk('c', 's', '<unreachable>')
    if k == 'opt': return t.a[1] if var in ('Some', 'Ok', 'Continue') else mk('vf', t, var, name)
    if k == 'upd':
        if t.a[1] == '@%s.%s' % (var, name): return t.a[2]
        return vproject(t.a[0], var, name)
    if k == 'gphi':
        al = [(f, x) for f, x in t.a[0] if x.k != 'adt' or x.a[1] == var]
        if al: return gphi(tuple((f, vproject(x, var, name)) for f, x in al))
    return mk('vf', t, var, name)

def is_var(t, var):
    """boolean term: t is the variant var"""
    if t.k == 'adt': return TRUE if t.a[1] == var else FALSE
    if t.k == 'opt':
        return t.a[0] if var in ('Some', 'Ok', 'Continue') else op('Not', t.a[0])
    if t.k == 'gphi':
        return gphi(tuple((f, is_var(x, var)) for f, x in t.a[0]))
    if t.k == 'call' and t.a[0] == 'cmp':
        a, b = t.a[1]
        if var == 'Less': return op('Lt', a, b)
        if var == 'Greater': return op('Lt', b, a)
        if var == 'Equal': return op('Eq', a, b)
    # two-variant types: one canonical polarity
    c = {'None': 'Some', 'Err': 'Ok', 'Break': 'Continue'}.get(var)
    if c: return op('Not', mk('is', t, c))
    return mk('is', t, var)

def full(i, v):
    """index i ranges over every position of v"""
    return i.k == 'rng' and not i.a[3] and i.a[1] is ci(0) and i.a[2] is length(v)
def covers(i, v):
    """index term i visits every position of v exactly once: i or len-1-i over the full range"""
    if i.k == 'rng': return full(i, v)
    rs = find(i, lambda x: x.k == 'rng')
    for r in rs:
        if full(r, v) and i is op('Sub', op('Sub', length(v), ci(1)), r): return True
    return False
def at(i):
    """position of an index term counted from the start of its range"""
    return op('Sub', i, i.a[1]) if i.k == 'rng' else i
def vecish(x, i):
    """an explicit vector, or sums and scalar multiples of explicit vectors, with coordinate i"""
    if x.k == 'arr': return i < len(x.a[0])
    if x.k == 'lin': return x.a[1] is None and all(vecish(y, i) for y, _ in x.a[0])
    if x.k == 'op' and x.a[0] in ('Mul', 'Div'):
        v = [vecish(y, i) for y in x.a[1]]
        return sum(v) == 1 and (x.a[0] == 'Mul' or v[0]) and any(numeric(y) is not None for y, q in zip(x.a[1], v) if not q)
    return False
def part(t, i):
    """constant bounds of a range inside an explicit list"""
    lo, hi = i.a[0], ci(len(t.a[0])) if i.a[1] is UNIT else i.a[1]
    return (lo.a[1], hi.a[1]) if isint(lo) and isint(hi) and 0 <= lo.a[1] <= hi.a[1] <= len(t.a[0]) else None
def elem(t, i):
    k = t.k
    if k == 'adt' and t.a[2] == ('coords',) and t.a[3][0].k == 'arr' and isint(i): return elem(t.a[3][0], i)
    if k in ('arr', 'tup') and isint(i):
        if 0 <= i.a[1] < len(t.a[0]): return t.a[0][i.a[1]]
    elif k == 'arr' and i.k == 'range' and (r := part(t, i)): return arr(t.a[0][r[0]:r[1]])
    elif k == 'seq':
        e, src, tags, ix = t.a
        if isinstance(ix, T) and (not tags):
            if ix is i and ix.a[1] is ci(0): return e
            return subst(e, {ix: op('Add', i, ix.a[1])})
    elif k == 'updi':
        b, j, v = t.a
        if i is j: return v
        if full(j, b): return subst(v, {j: i})
        if i.k == 'rng' and j.k == 'rng' and i.a[1:] == j.a[1:] and not i.a[3]: return subst(v, {j: i})
        if isint(i) and isint(j): return elem(b, i)
        if j.k == 'rng' and isint(i) and isint(j.a[1]) and i.a[1] < j.a[1].a[1] and not j.a[3]: return elem(b, i)
    elif k == 'fill': return t.a[0]
    elif k == 'lin' and isint(i) and t.a[1] is None and all(vecish(x, i.a[1]) for x, _ in t.a[0]):
        return linsub(tuple((elem(x, i), c) for x, c in t.a[0]), None)
    elif k == 'op' and t.a[0] in ('Mul', 'Div') and isint(i) and vecish(t, i.a[1]):
        return op(t.a[0], *(elem(x, i) if vecish(x, i.a[1]) else x for x in t.a[1]))
    elif k == 'gphi':
        return gphi(tuple((f, elem(x, i)) for f, x in t.a[0]))
    elif k == 'slice':
        return elem(t.a[0], op('Add', i, t.a[1]))
    elif k == 'cat' and isint(i) and t.a[0][0].k == 'arr' and i.a[1] < len(t.a[0][0].a[0]):
        return t.a[0][0].a[0][i.a[1]]
    elif k == 'cat' and i.k == 'lin':
        l = t.a[0][-1]
        if l.k == 'arr':
            for j in range(len(l.a[0])):
                if i is op('Sub', length(t), ci(j + 1)): return l.a[0][-1 - j]
    return mk('elem', t, i)

def length(v):
    k = v.k
    if k in ('arr',): return ci(len(v.a[0]))
    if k == 'fill': return v.a[1]
    if k == 'seq':
        if isinstance(v.a[3], T) and all(not isinstance(x, str) and x[0] == 'sorted' for x in v.a[2]):
            i = v.a[3]
            if not i.a[3]: return op('Sub', i.a[2], i.a[1])
    if k == 'updi': return length(v.a[0])
    if k == 'cat':
        r = ci(0)
        for p in v.a[0]: r = op('Add', r, length(p))
        return r
    if k == 'slice': return op('Sub', v.a[2], v.a[1])
    if k == 'gphi': return gphi(tuple((f, length(x)) for f, x in v.a[0]))
    return mk('call', 'len', (v,))

def cat(parts):
    out = []
    for p in parts:
        for q in (p.a[0] if p.k == 'cat' else (p,)):
            if q.k == 'arr':
                if not q.a[0]: continue
                if out and out[-1].k == 'arr':
                    out[-1] = arr(out[-1].a[0] + q.a[0]); continue
            out.append(q)
    if not out: return arr(())
    if len(out) == 1: return out[0]
    return mk('cat', tuple(out))

def set_in(t, path, v):
    if not path: return v
    p = path[0]
    if p[0] == 'f':
        n = p[1]
        if n in IDENT_FIELDS: return set_in(t, path[1:], v)
        if n in COORD and t.k not in ('adt', 'upd') : return set_in(t, (('e', ci(COORD[n])),) + path[1:], v)
        if t.k == 'adt':
            names = t.a[2]
            j = names.index(n) if n in names else (int(n) if n.isdigit() and int(n) < len(names) else None)
            if j is not None:
                vals = list(t.a[3]); vals[j] = set_in(vals[j], path[1:], v)
                return mk('adt', t.a[0], t.a[1], names, tuple(vals))
        if t.k in ('tup', 'arr') and n.isdigit() and int(n) < len(t.a[0]):
            vals = list(t.a[0]); vals[int(n)] = set_in(vals[int(n)], path[1:], v)
            return mk(t.k, tuple(vals))
        if t.k == 'clo' and n.isdigit() and int(n) < len(t.a[1]):
            vals = list(t.a[1]); vals[int(n)] = set_in(vals[int(n)], path[1:], v)
            return mk('clo', t.a[0], tuple(vals))
        if t.k == 'gphi':
            return gphi(tuple((f, set_in(x, path, v)) for f, x in t.a[0]))
        return upd(t, n, set_in(project(t, n), path[1:], v))
    if p[0] == 'v':
        var, n = p[1], p[2]
        if t.k == 'adt':
            if t.a[1] == var: return set_in(t, (('f', n),) + path[1:], v)
            return t
        if t.k == 'opt' and var in ('Some', 'Ok'):
            return mk('opt', t.a[0], set_in(t.a[1], path[1:], v))
        if t.k == 'gphi':
            return gphi(tuple((f, set_in(x, path, v)) for f, x in t.a[0]))
        return upd(t, '@%s.%s' % (var, n), set_in(vproject(t, var, n), path[1:], v))
    if p[0] == 'e':
        i = p[1]
        if t.k == 'arr' and i.k == 'range' and (r := part(t, i)):
            x = set_in(arr(t.a[0][r[0]:r[1]]), path[1:], v)
            if x.k == 'arr' and len(x.a[0]) == r[1] - r[0]: return arr(t.a[0][:r[0]] + x.a[0] + t.a[0][r[1]:])
        if t.k == 'arr' and i.k == 'c' and 0 <= i.a[1] < len(t.a[0]):
            vals = list(t.a[0]); vals[i.a[1]] = set_in(vals[i.a[1]], path[1:], v)
            return arr(vals)
        if t.k == 'gphi':
            return gphi(tuple((f, set_in(x, path, v)) for f, x in t.a[0]))
        nv = set_in(elem(t, i), path[1:], v)
        if t.k == 'updi' and t.a[1] is i: t = t.a[0]
        if elem(t, i) is nv: return t
        return mk('updi', t, i, nv)
    return mk('havoc', t)

def upd(t, n, v):
    """functional field update, names kept sorted"""
    if project(t, n) is v and not n.startswith('@'): return t
    ups = {}
    while t.k == 'upd':
        ups.setdefault(t.a[1], t.a[2]); t = t.a[0]
    ups[n] = v
    for k in sorted(ups):
        t = mk('upd', t, k, ups[k])
    return t

def numeric(t):
    if t.k == 'c':
        if t.a[0] == 'i': return t.a[1]
        if t.a[0] == 'f': return float(t.a[1])
    return None
def isint(t): return t.k == 'c' and t.a[0] == 'i'

def lin_parts(t):
    if t.k == 'lin': return t.a
    if t.k == 'c' and t.a[0] in 'if': return ((), t)
    return (((t, 1),), None)
def linear(o, p, q):
    """sums and differences in a normal form: integer multiples of terms plus a constant"""
    (ta, ca), (tb, cb) = lin_parts(p), lin_parts(q)
    sg = 1 if o == 'Add' else -1
    co = dict(ta)
    for x, c in tb: co[x] = co.get(x, 0) + sg * c
    if ca is not None and cb is not None and ca.a[0] != cb.a[0]:
        co[cb] = co.get(cb, 0) + sg; cb = None
    x, y = (numeric(ca) if ca is not None else None), (numeric(cb) if cb is not None else None)
    if x is None and y is None: c = None
    else:
        v = (x or 0) + sg * (y or 0)
        c = (cf if (ca or cb).a[0] == 'f' else ci)(v) if v else None
    ts = tuple(sorted(((x, k) for x, k in co.items() if k), key=lambda z: z[0].n))
    if not ts: return c if c is not None else (ci(0) if not (isinstance(ca or cb, T) and (ca or cb).a[0] == 'f') else cf(0))
    if len(ts) == 1 and ts[0][1] == 1 and c is None: return ts[0][0]
    return mk('lin', ts, c)
def linsub(ts, c):
    r = c
    for x, k in ts:
        for _ in range(abs(k)):
            if r is None: r = x if k > 0 else linear('Sub', ci(0), x)
            else: r = linear('Add' if k > 0 else 'Sub', r, x)
    return r

COMM = {'Add', 'Mul', 'Eq', 'BitAnd', 'BitOr', 'BitXor', 'min', 'max'}
DECIDER = [None]       # a signs.Case that settles comparisons while a table case is explored
class deciding:
    def __init__(self, case): self.case = case
    def __enter__(self): self.old, DECIDER[0] = DECIDER[0], self.case
    def __exit__(self, *a): DECIDER[0] = self.old

def op(o, *a):
    if o == 'Gt': return op('Lt', a[1], a[0])
    if o == 'Ge': return op('Le', a[1], a[0])
    if o == 'Ne': return op('Not', op('Eq', *a))
    if o == 'Not':
        x = a[0]
        if x is TRUE: return FALSE
        if x is FALSE: return TRUE
        if x.k == 'op' and x.a[0] == 'Not': return x.a[1][0]
        if x.k == 'gphi': return gphi(tuple((f, op('Not', y)) for f, y in x.a[0]))
        return mk('op', 'Not', a)
    if len(a) == 2:
        x, y = numeric(a[0]), numeric(a[1])
        if x is not None and y is not None and a[0].a[0] == a[1].a[0]:
            isf = a[0].a[0] == 'f'
            c = cf if isf else ci
            if o == 'Add': return c(x + y)
            if o == 'Sub': return c(x - y)
            if o == 'Mul': return c(x * y)
            if o == 'Div' and y: return c(x / y if isf else x // y)
            if o == 'Rem' and y and not isf: return c(x % y)
            if o == 'Lt': return ci(x < y)
            if o == 'Le': return ci(x <= y)
            if o == 'Eq': return ci(x == y)
            if o == 'min': return a[0] if x <= y else a[1]
            if o == 'max': return a[0] if x >= y else a[1]
            if o == 'BitAnd' and not isf: return ci(x & y)
            if o == 'BitOr' and not isf: return ci(x | y)
            if o == 'BitXor' and not isf: return ci(x ^ y)
        if o == 'Eq':
            p, q = a
            if p.k == 'c' and q.k == 'c' and p.a[0] == 's' and q.a[0] == 's': return ci(p is q)
            if p.k == 'rc' and q.k == 'rc': return ci(p is q)
            if p.k == 'adt' and q.k == 'adt' and p.a[0] == q.a[0]:
                if p.a[1] != q.a[1]: return FALSE
                if not p.a[3] and not q.a[3]: return TRUE
            for p, q in (a, a[::-1]):
                if p in (TRUE, FALSE) and (q.k == 'is' or q.k == 'op' and q.a[0] in ('Lt', 'Le', 'Eq', 'Not', 'BitAnd', 'BitOr')):
                    return q if p is TRUE else op('Not', q)
            for p, q in (a, a[::-1]):
                if q.k == 'adt' and not q.a[3] and p.k not in ('adt', 'upd'):
                    return is_var(p, q.a[1])
                if p.k == 'gphi':
                    return gphi(tuple((f, op('Eq', z, q)) for f, z in p.a[0]))
        if o in ('Lt', 'Le'):
            for j in (0, 1):
                if a[j].k == 'gphi':
                    return gphi(tuple((f, op(o, *((z, a[1]) if j == 0 else (a[0], z)))) for f, z in a[j].a[0]))
        if o == 'BitAnd':
            for p, q in (a, a[::-1]):
                if p is TRUE: return q
                if p is FALSE: return FALSE
        if o == 'BitOr':
            for p, q in (a, a[::-1]):
                if p is FALSE: return q
                if p is TRUE: return TRUE
        if o in ('Add', 'Sub'): return linear(o, a[0], a[1])
        if o == 'Mul':
            if x == 1: return a[1]
            if y == 1: return a[0]
            if isint(a[0]) and x == 0 or isint(a[1]) and y == 0: return ci(0)
        if o == 'Div' and y == 1: return a[0]
        if o in COMM and (numeric(a[0]) is not None, a[0].n) > (numeric(a[1]) is not None, a[1].n):
            a = (a[1], a[0])        # constants last, otherwise creation order
        if o in ('min', 'max') and a[0] is a[1]: return a[0]
    return mk('op', o, a)

def simplify(t, facts):
    """drop alternatives of guarded choices that contradict the facts; decide min/max and boolean terms by the facts"""
    memo = {}
    fs = frozenset(facts)
    def known(c):
        if (c, True) in fs: return TRUE
        if (c, False) in fs: return FALSE
        if contradictory(fs | {(c, True)}): return FALSE
        if DECIDER[0] is not None:
            r = DECIDER[0].cond(c)
            if r is not None: return TRUE if r else FALSE
        return None
    def w(x):
        if isinstance(x, tuple): return tuple(map(w, x))
        if not isinstance(x, T): return x
        if x in memo: return memo[x]
        if x.k == 'gphi':
            al = []
            for f, y in x.a[0]:
                f2 = frozenset((g, p) for g, p in f if (g, p) not in fs)
                if not contradictory(fs | f2): al.append((f2, w(y)))
            r = gphi(tuple(al)) if al else x
        else:
            r = None
            if x.k in ('op', 'is', 'call'):
                r = known(x)
                if r is None and x.k == 'op' and x.a[0] in ('min', 'max') and len(x.a[1]) == 2:
                    p, q = w(x.a[1][0]), w(x.a[1][1])
                    lt = (op('Lt', p, q), True) in fs or (op('Le', p, q), True) in fs or (op('Lt', q, p), False) in fs or (op('Le', q, p), False) in fs
                    gt = (op('Lt', q, p), True) in fs or (op('Le', q, p), True) in fs or (op('Lt', p, q), False) in fs or (op('Le', p, q), False) in fs
                    if lt: r = p if x.a[0] == 'min' else q
                    elif gt: r = q if x.a[0] == 'min' else p
            if r is None:
                a = tuple(map(w, x.a))
                r = x if a == x.a else rebuild(x.k, a)
        memo[x] = r
        return r
    return w(t)

# ---- states ----------------------------------------------------------------------------------
class St:
    __slots__ = ('s', 'f')
    def __init__(self, s, f=EMPTY): self.s, self.f = s, f
    def copy(self): return St(dict(self.s), self.f)
    def assume_all(self, fs):
        """states in which every fact holds"""
        ss = [self]
        for c, p in fs: ss = [y for x in ss for y in x.assume(c, p)]
        return ss
    def key(self): return (frozenset(self.s.items()), self.f)
    def assume(self, t, p=True):
        """list of states in which boolean term t has polarity p"""
        while t.k == 'op' and t.a[0] == 'Not': t, p = t.a[1][0], not p
        if DECIDER[0] is not None and t.k != 'c':
            r = DECIDER[0].cond(t)
            if r is not None: return [self] if r == p else []
        if t.k == 'c': return [self] if (t is TRUE) == p else []
        if (t, p) in self.f: return [self]
        if (t, not p) in self.f: return []
        if t.k == 'gphi':
            out = []
            for f, x in t.a[0]:
                f2 = self.f | f
                if not contradictory(f2): out += St(self.s, f2).assume(x, p)
            return out
        if t.k == 'op' and (t.a[0] == 'BitAnd' and p or t.a[0] == 'BitOr' and not p):
            out = []
            for s1 in self.assume(t.a[1][0], p): out += s1.assume(t.a[1][1], p)
            return out
        f2 = self.f | {(t, p)}
        if contradictory(f2): return []
        return [St(self.s, f2)]

class Budget(Exception): pass
