"""Models of the functions outside the crate that the value-flow engine sees through."""
from sym import *
import math
import re

FNREFS = []
_fnkey = {}
def fnref(I, x):
    k = (x.get('rpath', x['path']), str(x.get('ra') or x.get('a')))
    i = _fnkey.get(k)
    if i is None:
        i = _fnkey[k] = len(FNREFS); FNREFS.append(x)
    return i

_canon = {}
def canon(name, g=None):
    """short stable name of a callee"""
    r = _canon.get(name)
    if r is None:
        if g is not None and g.kind != 'Closure':
            a = g.self_adt()
            r = (a.split('::')[-1] + '::' if a else '') + g.name
        elif g is not None: r = name
        else: r = name.split('::')[-1]
        _canon[name] = r
    return r

def derived(I, st, name, args, g):
    a = [I.value(st, x) for x in args]
    if name == 'clone': return [(st, a[0])]
    if name == 'eq': return [(st, op('Eq', a[0], a[1]))]
    if name == 'ne': return [(st, op('Ne', a[0], a[1]))]
    return None

# ---- options and results -----------------------------------------------------------------------
def payload(v, var='Some'): return vproject(v, var, '0')
def split(I, st, v, pos):
    """[(state, True/False, payload)]"""
    c = is_var(v, pos)
    neg = {'Some': None, 'Ok': 'Err', 'Continue': 'Break'}[pos]
    out = []
    for s in st.assume(c, True):
        w = I.refine(s, v) if v.k == 'gphi' else v
        out.append((s, True, payload(w, pos)))
    for s in st.assume(c, False):
        w = I.refine(s, v) if v.k == 'gphi' else v
        out.append((s, False, payload(w, neg) if neg else None))
    return out
def choice(c, a, b):
    """value choice on a boolean term"""
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    def alts(c, pol):
        while c.k == 'op' and c.a[0] == 'Not': c, pol = c.a[1][0], not pol
        if c.k == 'c': return [EMPTY] if (c is TRUE) == pol else []
        if c.k == 'gphi':
            r = []
            for f, x in c.a[0]:
                for g in alts(x, pol):
                    if not contradictory(f | g): r.append(f | g)
            return r
        return [frozenset({(c, pol)})]
    al = [(f, a) for f in alts(c, True)] + [(f, b) for f in alts(c, False)]
    return gphi(tuple(al))
def clo(I, st, f, args, site):
    r = I.apply1(st, f, args, site)
    return r

def option_call(I, st, name, args, site, res):
    """Option and Result methods; res: True for Result"""
    v = args[0]
    ref = v if v.k == 'ref' else None
    pos = 'Ok' if res else 'Some'
    if ref is not None and name not in ('take', 'replace', 'insert', 'get_or_insert_with', 'as_mut', 'iter_mut'): v = I.deref(st, v)
    c = is_var(v, pos) if ref is None or name not in ('take',) else None
    mkpos = ok if res else some
    if name in ('unwrap', 'expect', 'unwrap_or_default', 'unwrap_unchecked'):
        if name == 'unwrap_or_default': return [(st, choice(c, payload(v, pos), mk('call', 'default', ())))]
        return [(s, p) for s, t, p in split(I, st, v, pos) if t]
    if name == 'unwrap_or': return [(st, choice(c, payload(v, pos), args[1]))]
    if name in ('unwrap_or_else', 'map_or', 'map_or_else', 'and_then', 'map', 'ok_or_else', 'or_else', 'map_err', 'filter', 'is_some_and', 'inspect', 'is_ok_and', 'is_none_or'):
        out = []
        for s, t, p in split(I, st, v, pos):
            pa = [p] if p is not None else []
            def cv(f, a): return I.call_value(s, f, a, site + (name, t))
            if name == 'unwrap_or_else': out += [(s, p)] if t else cv(args[1], pa)
            elif name == 'map_or': out += cv(args[2], pa) if t else [(s, args[1])]
            elif name == 'map_or_else': out += cv(args[2] if t else args[1], pa)
            elif name == 'and_then': out += cv(args[1], pa) if t else [(s, err(p) if res else NONE)]
            elif name == 'map': out += [(s2, mkpos(r)) for s2, r in cv(args[1], pa)] if t else [(s, err(p) if res else NONE)]
            elif name == 'ok_or_else': out += [(s, ok(p))] if t else [(s2, err(r)) for s2, r in cv(args[1], [])]
            elif name == 'or_else': out += [(s, mkpos(p))] if t else cv(args[1], pa)
            elif name == 'map_err': out += [(s, ok(p))] if t else [(s2, err(r)) for s2, r in cv(args[1], pa)]
            elif name == 'filter':
                if not t: out.append((s, NONE))
                else:
                    for s2, r in cv(args[1], pa):
                        for s3 in s2.assume(r, True): out.append((s3, some(p)))
                        for s3 in s2.assume(r, False): out.append((s3, NONE))
            elif name in ('is_some_and', 'is_ok_and'): out += cv(args[1], pa) if t else [(s, FALSE)]
            elif name == 'is_none_or': out += cv(args[1], pa) if t else [(s, TRUE)]
            elif name == 'inspect': out.append((s, v))
        return out
    if name in ('is_some', 'is_ok'): return [(st, c)]
    if name in ('is_none', 'is_err'): return [(st, op('Not', c))]
    if name in ('as_ref', 'cloned', 'copied', 'as_deref', 'clone', 'iter', 'as_slice') and name != 'iter': return [(st, v)]
    if name == 'ok_or':
        return [(s, ok(p) if t else err(args[1])) for s, t, p in split(I, st, v, pos)]
    if name == 'ok' and res: return [(s, some(p) if t else NONE) for s, t, p in split(I, st, v, pos)]
    if name == 'err' and res: return [(s, NONE if t else some(p)) for s, t, p in split(I, st, v, pos)]
    if name == 'or': return [(s, mkpos(p) if t else args[1]) for s, t, p in split(I, st, v, pos)]
    if name == 'and': return [(s, args[1] if t else v) for s, t, p in split(I, st, v, pos)]
    if name == 'xor': return None
    if name == 'zip':
        out = []
        for s, t, p in split(I, st, v, pos):
            if not t: out.append((s, NONE)); continue
            for s2, t2, p2 in split(I, s, I.deref(s, args[1]), pos): out.append((s2, some(tup(p, p2)) if t2 else NONE))
        return out
    if name == 'flatten':
        out = []
        for s, t, p in split(I, st, v, pos): out.append((s, p if t else v))
        return out
    if name == 'transpose':
        out = []
        for s, t, p in split(I, st, v, pos):
            if res:      # Result<Option<T>,E> -> Option<Result<T,E>>
                if not t: out.append((s, some(err(p))))
                else: out += [(s2, some(ok(q)) if t2 else NONE) for s2, t2, q in split(I, s, p, 'Some')]
            else:
                if not t: out.append((s, ok(NONE)))
                else: out += [(s2, ok(some(q)) if t2 else err(q)) for s2, t2, q in split(I, s, p, 'Ok')]
        return out
    if name == 'iter_mut' and ref is not None:
        cur = I.get(st, ref.a[0], ref.a[1])
        return [(s, mk('itarr', (mk('ref', ref.a[0], ref.a[1] + (('v', pos, '0'),)),) if t else ())) for s, t, p in split(I, st, cur, pos)]
    if name == 'as_mut' and ref is not None:
        cur = I.get(st, ref.a[0], ref.a[1])
        out = []
        for s, t, p in split(I, st, cur, pos):
            out.append((s, some(mk('ref', ref.a[0], ref.a[1] + (('v', pos, '0'),))) if t else NONE))
        return out
    if name in ('take', 'replace') and ref is not None:
        cur = I.get(st, ref.a[0], ref.a[1])
        st = st.copy()
        I.put(st, ref.a[0], ref.a[1], NONE if name == 'take' else some(args[1]))
        return [(st, cur)]
    return None

# ---- iterators ------------------------------------------------------------------------------
def rng(site, lo, hi, tags=()): return mk('rng', site, lo, hi, tags)
def over(v, site):
    """iterate every element of a vector-like value"""
    if length(v) is ci(0): return mk('itarr', ())
    return mk('seq', elem(v, rng(site, ci(0), length(v))), v, (), rng(site, ci(0), length(v)))
ITERS = ('seq', 'itarr', 'itcat', 'itcyc')
def to_seq(I, st, v, site, fresh):
    """iterator over v; fresh: v is a collection (its index must be renamed)"""
    v = I.deref(st, v)
    if v.k in ('itarr', 'itcat', 'itcyc'): return v
    if v.k == 'arr':
        if len(v.a[0]) <= max(6, I.unroll): return mk("itarr", v.a[0])
        return over(v, site)
    if v.k == 'seq':
        if not fresh: return v
        e, src, tags, ix = v.a
        if not isinstance(ix, T): return mk('seq', mk('elem', v, rng(site, ci(0), length(v))), v, (), rng(site, ci(0), length(v)))
        # several iterations over one collection need distinct index symbols
        n = mk('rng', site, ix.a[1], ix.a[2], ix.a[3])
        tags = tuple(t if isinstance(t, str) else (t[0], subst(t[1], {ix: n})) for t in tags)
        return mk('seq', subst(e, {ix: n}), src, tags, n)
    if v.k == 'cat':
        return mk('itcat', tuple(to_seq(I, st, p, site + (i,), True) for i, p in enumerate(v.a[0])))
    if v.k == 'slice':
        if v.a[1] is v.a[2]: return mk('itarr', ())
        r = rng(site, v.a[1], v.a[2])
        return mk('seq', elem(v.a[0], r), v.a[0], (), r)
    if v.k == 'adt':
        p = v.a[0]
        if p in ('std::ops::Range', 'std::ops::RangeInclusive'):
            lo, hi = project(v, 'start'), project(v, 'end')
            if p.endswith('Inclusive'): hi = op('Add', hi, ci(1))
            if isint(lo) and isint(hi) and hi.a[1] - lo.a[1] <= max(6, I.unroll):
                return mk('itarr', tuple(ci(i) for i in range(lo.a[1], hi.a[1])))
            r = rng(site, lo, hi)
            return mk('seq', r, UNIT, (), r)
        if p == 'std::ops::RangeFrom':
            r = rng(site, project(v, 'start'), mk('const', 'inf'))
            return mk('seq', r, UNIT, (), r)
        if p == OPT: return mk('itarr', v.a[3])
    return over(v, site)
def iter_mut(I, st, ref, site):
    if ref.k != 'ref': return to_seq(I, st, ref, site, True)
    cur = I.get(st, ref.a[0], ref.a[1])
    if cur.k == 'ref': return iter_mut(I, st, cur, site)
    if cur.k == 'adt' and cur.a[0] == OPT:
        return mk('itarr', (mk('ref', ref.a[0], ref.a[1] + (('v', 'Some', '0'),)),) if cur.a[3] else ())
    if cur.k == "arr" and len(cur.a[0]) <= max(6, I.unroll):
        return mk('itarr', tuple(mk('ref', ref.a[0], ref.a[1] + (('e', ci(i)),)) for i in range(len(cur.a[0]))))
    r = rng(site, ci(0), length(cur))
    return mk('seq', mk('ref', ref.a[0], ref.a[1] + (('e', r),)), cur, (), r)
def parts(it):
    return it.a[0] if it.k == 'itcat' else (it,)
def mapseq(I, st, it, fn, site):
    """apply fn(state, elem, site) -> value to the generic elements"""
    if it.k == 'itarr': return mk('itarr', tuple(fn(st, x, site + (i,)) for i, x in enumerate(it.a[0])))
    if it.k == 'itcat': return mk('itcat', tuple(mapseq(I, st, p, fn, site + (i,)) for i, p in enumerate(it.a[0])))
    e, src, tags, ix = it.a
    return mk('seq', fn(filt(st, tags), e, site), src, tags, ix)
def filt(st, tags):
    for t in tags:
        if not isinstance(t, str) and t[0] == 'filter':
            ss = st.assume(t[1])
            if len(ss) == 1: st = ss[0]
    return st
def collected(it):
    if it.k == 'itarr': return arr(it.a[0])
    if it.k == 'itcat': return cat([collected(p) for p in it.a[0]])
    e, src, tags, ix = it.a
    if not tags and isinstance(ix, T) and e is elem(src, ix) and src is not UNIT:
        if ix.a[1] is ci(0) and ix.a[2] is length(src): return src
        return mk('slice', src, ix.a[1], ix.a[2])
    return it
def position(it):
    e, src, tags, ix = it.a
    if any(isinstance(t, str) or t[0] != 'sorted' for t in tags): return mk('pos', ix if isinstance(ix, T) else UNIT)
    return at(ix)
def elems(it):
    """[(elem, extra facts condition terms)] for one generic step"""
    if it.k == 'itarr': return [(x, ()) for x in it.a[0]]
    if it.k == 'itcat': return [x for p in it.a[0] for x in elems(p)]
    return [(it.a[0], tuple(t[1] for t in it.a[2] if not isinstance(t, str) and t[0] == 'filter'))]

def effect_loop(I, st, it, site, body):
    """run body(state, elem) for every element, with effects; returns exit states"""
    sts = [st]
    for p in parts(it):
        nxt = []
        for s in sts:
            if p.k == 'itarr':
                cur = [s]
                for x in p.a[0]:
                    cur = I.limit(I.dedupe([b for c in cur for b in body(c, x)]), I.cap)
                nxt += cur
                continue
            e, src, tags, ix = p.a
            conds = [c for x, cs in elems(p) for c in cs]
            lsite = ('loop',) + site
            def step(c):
                ss = [c]
                for q in conds: ss = [y for x in ss for y in x.assume(q)]
                backs = [b for x in ss for b in body(x, e)]
                if conds:
                    for q in conds: backs += c.assume(q, False)
                ex = St(c.s, c.f | ({(mk('done', ix, lsite), True)} if isinstance(ix, T) else frozenset()))
                return I.limit(I.dedupe([St(b.s, b.f) for b in backs]), 8), [(None, ex)]
            nxt += [x for t, x in I.fix(s, lsite, step, 0)]
        sts = nxt
    return sts
def pure_fn(I, st, f, args, site):
    """evaluate f on args; value, or None if the store changed outside"""
    outs = I.call_value(st, f, args, site)
    if not outs: return mk('c', 's', '<never>')
    for s, r in outs:
        for k, v in s.s.items():
            if st.s.get(k) is not v: return None
    common = frozenset.intersection(*[s.f for s, r in outs])
    return I.gmerge([(s.f - common if len(outs) > 1 else s.f - st.f & EMPTY, r) for s, r in outs])

def do_map(I, st, it, f, site, post):
    """map; post(value) -> element value; with effects falls back to a loop"""
    probe = all(True for _ in ())
    vals = {}
    mark = len(I.events)
    bad = [False]
    def fn(s, e, st_):
        r = pure_fn(I, s, f, [e], st_)
        if r is None: bad[0] = True; return UNIT
        return post(r)
    r = mapseq(I, st, it, fn, site)
    if not bad[0]: return [(st, r)]
    del I.events[mark:]
    out = {}
    def body(s, e):
        res = I.call_value(s, f, [e], site)
        for s2, v in res: out.setdefault(e, []).append((s2.f - s.f, post(I.value(s2, v))))
        return [s2 for s2, v in res]
    sts = effect_loop(I, st, it, site, body)
    def fn2(s, e, st_):
        vs = out.get(e, [])
        # only the last fixpoint round is meaningful; earlier ones are subsumed
        return gphi(tuple(vs)) if vs else mk('call', 'map_effect', (e,))
    return [(s, mapseq(I, st, it, fn2, site)) for s in sts]

def add_filter(it, cond_of):
    """filter with condition term per element"""
    if it.k == 'itcat': return mk('itcat', tuple(add_filter(p, cond_of) for p in it.a[0]))
    if it.k == 'itarr':
        out = []
        for x in it.a[0]:
            c = cond_of(x)
            if DECIDER[0] is not None and c.k != 'c': c = simplify(c, ())
            if c is FALSE: continue
            if c is TRUE: out.append(mk('itarr', (x,)))
            else: out.append(mk('seq', x, arr((x,)), (('filter', c),), 0))
        if all(o.k == 'itarr' for o in out): return mk('itarr', tuple(o.a[0][0] for o in out))
        return mk('itcat', tuple(out))
    e, src, tags, ix = it.a
    c = cond_of(e)
    if c is TRUE: return it
    return mk('seq', e, src, tags + (('filter', c),), ix)

def next_model(I, st, ref, site):
    it = I.get(st, ref.a[0], ref.a[1]) if ref.k == 'ref' else ref
    n = 0
    while it.k == 'ref' and n < 5:
        ref = it; it = I.get(st, ref.a[0], ref.a[1]); n += 1
    if it.k == 'adt' or it.k not in ITERS:
        it2 = to_seq(I, st, it, site, True)
        if it.k == 'adt' and ref.k == 'ref':
            st = st.copy(); I.put(st, ref.a[0], ref.a[1], it2)
        it = it2
    if it.k == 'itarr':
        if not it.a[0]: return [(st, NONE)]
        st = st.copy()
        if ref.k == 'ref': I.put(st, ref.a[0], ref.a[1], mk('itarr', it.a[0][1:]))
        return [(st, some(it.a[0][0]))]
    if it.k == 'itcat' and it.a[0] and it.a[0][0].k == 'itarr' and it.a[0][0].a[0] and ref.k == 'ref' and not I.loopstack:
        p = it.a[0][0]
        st = st.copy()
        I.put(st, ref.a[0], ref.a[1], mk('itcat', (mk('itarr', p.a[0][1:]),) + it.a[0][1:]) if len(p.a[0]) > 1 else (mk('itcat', it.a[0][1:]) if len(it.a[0]) > 2 else it.a[0][1]))
        return [(st, some(p.a[0][0]))]
    inloop = I.loopstack and not local_iter(I, it)
    if not inloop and it.k == 'seq' and isinstance(it.a[3], T) and not it.a[2]:
        e, src, tags, ix = it.a
        first = subst(e, {ix: ix.a[1]})
        st = st.copy()
        if ref.k == 'ref':
            r = rng(site, op('Add', ix.a[1], ci(1)), ix.a[2])
            I.put(st, ref.a[0], ref.a[1], mk('seq', subst(e, {ix: r}), src, (), r))
        return [(st, mk('opt', op('Lt', ix.a[1], ix.a[2]), first))]
    out = []
    lsite = I.loopstack[-1] if I.loopstack else ('none',)
    for p in parts(it):
        for x, conds in elems(p):
            ss = [st]
            for c in conds: ss = [b for a in ss for b in a.assume(c)]
            out += [(s, some(x)) for s in ss]
    ix = it.a[3] if it.k == 'seq' and isinstance(it.a[3], T) else mk('rng', site, ci(0), mk('call', 'len', (it,)), ())
    out.append((St(st.s, st.f | {(mk('done', ix, lsite), True)}) if I.loopstack else st, NONE))
    return out
def local_iter(I, it):
    """was the iterator made inside the innermost loop's body?"""
    if not I.loopstack or it.k != 'seq' or not isinstance(it.a[3], T): return False
    site, l = it.a[3].a[0], I.loopstack[-1]
    if len(l) != 3 or not isinstance(site, tuple) or len(site) < 2: return False
    cx, h = l[1], l[2]
    if site[0] != cx: return False
    info = I.ctxinfo[cx]
    fid = info[1] if info[0] == 'root' else info[0]
    g = I.m.fns.get(fid)
    if g is None: return False
    body = I.finfo(g).loops.get(h, ())
    return site[1] in body and site[1] != h

ITER_METHODS = {'map', 'filter', 'filter_map', 'flat_map', 'flatten', 'enumerate', 'zip', 'rev', 'skip', 'take', 'chain', 'cycle', 'cloned', 'copied',
    'by_ref', 'peekable', 'inspect', 'for_each', 'try_for_each', 'fold', 'try_fold', 'collect', 'collect_vec', 'find', 'find_map', 'position', 'rposition', 'any', 'all', 'min_by', 'max_by',
    'min_by_key', 'max_by_key', 'sum', 'product', 'count', 'last', 'nth', 'next', 'reduce', 'unzip', 'partition', 'windows', 'tuple_windows', 'circular_tuple_windows',
    'sorted_by', 'sorted_by_key', 'sorted', 'dedup', 'coalesce', 'scan', 'step_by', 'skip_while', 'take_while', 'map_while', 'chunks', 'min', 'max', 'rfind', 'next_back', 'is_empty', 'len', 'size_hint', 'fuse', 'interleave', 'tuples', 'unique', 'join', 'rfold', 'dedup_by', 'sorted_unstable_by', 'tuple_combinations', 'exactly_one', 'eq', 'minmax', 'is_sorted', 'cmp'}

def iter_call(I, st, name, args, site, info):
    a0 = args[0]
    if name == 'next': return next_model(I, st, a0, site)
    if name == 'next_back' and a0.k == 'ref':
        ref = a0
        it = I.get(st, ref.a[0], ref.a[1])
        while it.k == 'ref': ref, it = it, I.get(st, it.a[0], it.a[1])
        if it.k not in ITERS: it = to_seq(I, st, it, site, True)
        if it.k == 'itarr':
            if not it.a[0]: return [(st, NONE)]
            st = st.copy()
            I.put(st, ref.a[0], ref.a[1], mk('itarr', it.a[0][:-1]))
            return [(st, some(it.a[0][-1]))]
        return None
    byref = a0 if a0.k == 'ref' else None
    it = I.deref(st, a0)
    if it.k not in ITERS: it = to_seq(I, st, it, site + ('src',), it.k != 'seq')
    f = args[1] if len(args) > 1 else None
    if name == 'cycle' and it.k == 'itarr' and it.a[0]: return [(st, mk('itcyc', it.a[0]))]
    if name == 'take' and it.k == 'itcyc' and isint(args[1]) and args[1].a[1] <= 14:
        return [(st, mk('itarr', tuple(it.a[0][i % len(it.a[0])] for i in range(args[1].a[1]))))]
    if name == 'skip' and it.k == 'itcyc' and isint(args[1]):
        n = args[1].a[1] % len(it.a[0])
        return [(st, mk('itcyc', it.a[0][n:] + it.a[0][:n]))]
    if it.k == 'itcyc': it = over(arr(it.a[0]), site)
    def ev(e, *k): return I.apply1(st, f, [e], site + k)
    if name in ('cloned', 'copied', 'by_ref', 'peekable', 'fuse', 'into_iter', 'iter'): return [(st, it if byref is None or name != 'by_ref' else byref)]
    if name == 'inspect': return [(s, it) for s in effect_loop(I, st, it, site, lambda s, e: [x for x, r in I.call_value(s, f, [e], site)])]
    if name == 'map': return do_map(I, st, it, f, site, lambda r: r)
    if name == 'filter':
        return [(st, add_filter(it, lambda e: ev(e)))]
    if name in ('filter_map', 'map_while'):
        outs = do_map(I, st, it, f, site, lambda r: r)
        return [(s, somes(x)) for s, x in outs]
    if name == 'flatten': return [(st, flat(I, st, it, site))]
    if name == 'flat_map':
        return [(s, flat(I, s, x, site)) for s, x in do_map(I, st, it, f, site, lambda r: r)]
    if name == 'enumerate':
        if it.k == 'itarr': return [(st, mk('itarr', tuple(tup(ci(i), x) for i, x in enumerate(it.a[0]))))]
        if it.k == 'itcat': return [(st, mapseq(I, st, it, lambda s, e, k: tup(mk('pos', e), e), site))]
        return [(st, mk('seq', tup(position(it), it.a[0]), *it.a[1:]))]
    if name == 'zip':
        jt = I.deref(st, args[1])
        if jt.k == 'itcyc':
            if it.k == 'itarr': jt = mk('itarr', tuple(jt.a[0][i % len(jt.a[0])] for i in range(len(it.a[0]))))
            else: jt = over(arr(jt.a[0]), site)
        if jt.k not in ITERS: jt = to_seq(I, st, jt, site + ('zip',), True)
        if it.k == 'itarr' and jt.k == 'itarr': return [(st, mk('itarr', tuple(tup(x, y) for x, y in zip(it.a[0], jt.a[0]))))]
        if it.k == 'itarr' and jt.k == 'seq' and isinstance(jt.a[3], T) and not jt.a[2]:
            return [(st, mk('itarr', tuple(tup(x, subst(jt.a[0], {jt.a[3]: op('Add', jt.a[3].a[1], ci(i))})) for i, x in enumerate(it.a[0]))))]
        if it.k == 'seq' and jt.k == 'seq' and isinstance(it.a[3], T):
            ea, src, tags, ix = it.a
            eb, srcb, tagsb, jx = jt.a
            if isinstance(jx, T) and not tagsb and not tags:
                # a shorter second operand bounds the pair sequence
                la, lb = op('Sub', ix.a[2], ix.a[1]), op('Sub', jx.a[2], jx.a[1])
                if la is not lb and lb.k == 'c' or is_shorter(la, lb):
                    n = rng(ix.a[0], ix.a[1], op('Add', ix.a[1], lb)); ea = subst(ea, {ix: n}); ix = n
                y = subst(eb, {jx: op('Add', at(ix), jx.a[1])})
            else: y = mk('elem', jt, position(it))
            return [(st, mk('seq', tup(ea, y), src, tags, ix))]
        if it.k == 'seq' and jt.k == 'itcat' or jt.k == 'itarr':
            y = elem(collected(jt), position(it)) if it.k == 'seq' else None
            if y is not None: return [(st, mk('seq', tup(it.a[0], y), *it.a[1:]))]
        return None
    if name == 'rev':
        if it.k == 'itarr': return [(st, mk('itarr', it.a[0][::-1]))]
        if it.k == 'itcat': return [(st, mk('itcat', tuple(iter_call(I, st, 'rev', [p], site, info)[0][1] for p in it.a[0][::-1])))]
        return [(st, revseq(it))]
    if name in ('skip', 'take', 'step_by'):
        n = args[1]
        if it.k == 'itarr' and isint(n):
            x = it.a[0]
            return [(st, mk('itarr', x[n.a[1]:] if name == 'skip' else x[:n.a[1]] if name == 'take' else x[::n.a[1]]))]
        if it.k == 'seq' and isinstance(it.a[3], T) and not it.a[2] and name != 'step_by':
            e, src, tags, ix = it.a
            if name == 'take' and I.exact and isint(n) and 0 <= n.a[1] <= 64 and ix.a[2].k == 'const' and not find(e, lambda x: x is ix): return [(st, mk('itarr', (e,) * n.a[1]))]
            r = rng(site, op('Add', ix.a[1], n), ix.a[2]) if name == 'skip' else rng(site, ix.a[1], op('Add', ix.a[1], n) if ix.a[2].k == 'const' else op('min', op('Add', ix.a[1], n), ix.a[2]))
            return [(st, mk('seq', subst(e, {ix: r}), src, (), r))]
        if it.k == 'seq': return [(st, mk('seq', it.a[0], it.a[1], it.a[2] + ((name, n),), it.a[3]))]
        return [(st, mk('seq', elem(collected(it), rng(site, ci(0), mk('call', 'len', (it,)))), collected(it), ((name, n),), rng(site, ci(0), mk('call', 'len', (it,)))))]
    if name in ('skip_while', 'take_while'):
        if it.k == 'seq': return [(st, mk('seq', it.a[0], it.a[1], it.a[2] + ((name, ev(it.a[0])),), it.a[3]))]
        return None
    if name == 'chain':
        jt = I.deref(st, args[1])
        if jt.k not in ITERS: jt = to_seq(I, st, jt, site + ('chain',), True)
        if it.k == 'itarr' and jt.k == 'itarr': return [(st, mk('itarr', it.a[0] + jt.a[0]))]
        ps = parts(it) + parts(jt)
        if all(p.k == 'itarr' for p in ps): return [(st, mk('itarr', tuple(x for p in ps for x in p.a[0])))]
        return [(st, mk('itcat', ps))]
    if name == 'cycle':
        if it.k == 'seq' and isinstance(it.a[3], T) and not it.a[2]:
            e, src, tags, ix = it.a
            r = rng(site, ci(0), mk('const', 'inf'))
            return [(st, mk('seq', subst(e, {ix: op('Add', mk('op', 'Rem', (r, op('Sub', ix.a[2], ix.a[1]))), ix.a[1])}), src, (), r))]
        return [(st, mk('seq', elem(collected(it), rng(site, ci(0), mk('const', 'inf'), ('cycle',))), collected(it), ('cycle',), rng(site, ci(0), mk('const', 'inf'), ('cycle',))))]
    if name in ('try_for_each', 'try_fold') and it.k == 'itarr':
        fn = f if name == 'try_for_each' else args[2]
        live, out = [(st, UNIT if fn is f else args[1])], []
        wrap = ok
        for x in it.a[0]:
            nxt = []
            for s, acc in live:
                for s2, r in I.call_value(s, fn, [x] if fn is f else [acc, x], site):
                    if not (r.k == 'adt' and r.a[0] in (OPT, RES) or r.k == 'opt'): return None
                    res = r.k == 'adt' and r.a[0] == RES
                    wrap = ok if res else some
                    for s3, t, p in split(I, s2, r, 'Ok' if res else 'Some'):
                        if t: nxt.append((s3, p))
                        else: out.append((s3, err(p) if res else NONE))
            live = nxt
        if not it.a[0]: return None      # which wrapper is not known here
        return out + [(s, wrap(a)) for s, a in live]
    if name == 'try_for_each': return None
    if name == 'rfold' and it.k == 'itarr':
        return iter_call(I, st, 'fold', [mk('itarr', it.a[0][::-1])] + list(args[1:]), site, info)
    if name == 'for_each':
        def body(s, e): return [x for x, r in I.call_value(s, f, [e], site)]
        return [(s, UNIT) for s in effect_loop(I, st, it, site, body)]
    if name == 'try_fold' or name == 'rfold': return None
    if name in ('fold', 'reduce'):
        key = ('acc',) + site
        s0 = st.copy()
        if name == 'fold': s0.s[key] = args[1]; fn = args[2]
        else:
            fn = f
            if it.k == 'itarr':
                if not it.a[0]: return [(st, NONE)]
                s0.s[key] = it.a[0][0]; it = mk('itarr', it.a[0][1:])
            elif it.k == 'seq' and isinstance(it.a[3], T) and not it.a[2]:
                e, src, tags, ix = it.a
                s0.s[key] = subst(e, {ix: ix.a[1]})
                r = rng(site, op('Add', ix.a[1], ci(1)), ix.a[2])
                it = mk('seq', subst(e, {ix: r}), src, (), r)
            else: return None
        def body(s, e):
            out = []
            for s2, r in I.call_value(s, fn, [s.s[key], e], site):
                s2 = s2.copy(); s2.s[key] = r; out.append(s2)
            return out
        out = []
        for s in effect_loop(I, s0, it, site, body):
            s = s.copy(); r = s.s.pop(key)
            out.append((s, r if name == 'fold' else some(r)))
        return out
    if name in ('collect', 'collect_vec'):
        return collect(I, st, it, info, site, name)
    if name in ('find', 'position', 'rposition', 'find_map', 'rfind', 'any', 'all'):
        return search(I, st, it, name, f, site)
    if name in ('min', 'max') and it.k == 'itarr' and f is None and all(isint(x) for x in it.a[0]):
        return [(st, some(ci((min if name == 'min' else max)(x.a[1] for x in it.a[0]))) if it.a[0] else NONE)]
    if name in ('min_by', 'max_by', 'min_by_key', 'max_by_key', 'sorted_by', 'sorted_by_key', 'sorted', 'min', 'max', 'sorted_unstable_by'):
        if name in ('min', 'max') and f is not None:
            return [(st, op(name, it, I.deref(st, f)))]
        srt = name.startswith('sorted')
        c = UNIT
        if f is not None and it.k == 'seq' and isinstance(it.a[3], T):
            ix = it.a[3]
            x, y = (subst(it.a[0], {ix: rng(site + (n,), ix.a[1], ix.a[2], ix.a[3])}) for n in ('a', 'b'))
            c = I.apply1(st, f, [x] if name.endswith('key') else [x, y], site) or UNIT
        if srt:
            if it.k == 'itarr' and len(it.a[0]) <= 1: return [(st, it)]
            if it.k == 'itarr':
                o = sort_known(I, st, it.a[0], f, name, site)
                if o is not None: return [(st, mk('itarr', o))]
            if it.k == 'seq': return [(st, mk('seq', it.a[0], it.a[1], it.a[2] + (('sorted', c),), it.a[3]))]
            return [(st, mk('seq', mk('elem', collected(it), rng(site, ci(0), length(collected(it)))), collected(it), (('sorted', c),), rng(site, ci(0), length(collected(it)))))]
        if it.k == 'itarr' and not it.a[0]: return [(st, NONE)]
        if it.k == 'itarr':
            o = it.a[0] if len(it.a[0]) == 1 else sort_known(I, st, it.a[0], f, name, site)
            if o is not None: return [(st, some(o[0] if name.startswith('min') else o[-1]))]
        e = it.a[0] if it.k == 'seq' else mk('elem', collected(it), mk('pos', UNIT))
        if it.k == 'seq' and isinstance(it.a[3], T):
            ix = it.a[3]
            e = subst(e, {ix: rng(site, ix.a[1], ix.a[2], ix.a[3] + (name,))})
        return [(st, mk('opt', op('Not', op('Eq', length(collected(it)), ci(0))), mk('best', name, e, c)))]
    if name in ('sum', 'product'):
        if it.k == 'itarr':
            r = cf(0) if name == 'sum' else cf(1)
            for x in it.a[0]: r = op('Add' if name == 'sum' else 'Mul', r, x)
            return [(st, r)]
        return [(st, mk('call', name, (it,)))]
    if name == 'count': return [(st, length(collected(it)))]
    if name == 'len': return [(st, length(collected(it)))]
    if name == 'last':
        c = collected(it)
        return [(st, mk('opt', op('Not', op('Eq', length(c), ci(0))), elem(c, op('Sub', length(c), ci(1)))))]
    if name == 'nth':
        c = collected(it)
        return [(st, mk('opt', op('Lt', args[1], length(c)), elem(c, args[1])))]
    if name == 'unzip':
        outs = []
        l = mapseq(I, st, it, lambda s, e, k: project(e, '0'), site)
        r = mapseq(I, st, it, lambda s, e, k: project(e, '1'), site)
        return [(st, tup(collected(l), collected(r)))]
    if name == 'partition':
        l = add_filter(it, lambda e: ev(e))
        r = add_filter(it, lambda e: op('Not', ev(e)))
        return [(st, tup(collected(l), collected(r)))]
    if name in ('tuple_windows', 'circular_tuple_windows', 'windows'):
        n = 2
        if name == 'windows': n = args[1].a[1] if isint(args[1]) else None
        else:
            ty = I.m.ty(info['item']) if 'item' in info else None
            g = [I.m.ty(x) for x in (info.get('a') or []) if isinstance(x, int)]
            for t in g:
                if t.k == 'tuple': n = len(t.d['a'])
        v = collected(it)
        if name == 'windows' and n is None:
            r = rng(site, ci(0), op('Add', op('Sub', length(v), args[1]), ci(1)))
            return [(st, mk('seq', mk('slice', v, r, op('Add', r, args[1])), v, (), r))]
        if v.k == 'arr':
            x = v.a[0]
            k = len(x) if name.startswith('circ') else len(x) - n + 1
            return [(st, mk('itarr', tuple((arr if name == 'windows' else lambda z: tup(*z))([x[(i + j) % len(x)] for j in range(n)]) for i in range(max(k, 0)))))]
        if name.startswith('circ'):
            r = rng(site, ci(0), length(v))
            es = [elem(v, r)] + [elem(v, mk('op', 'Rem', (op('Add', r, ci(j)), length(v)))) for j in range(1, n)]
        else:
            r = rng(site, ci(0), op('Sub', length(v), ci(n - 1)))
            es = [elem(v, op('Add', r, ci(j))) for j in range(n)]
        return [(st, mk('seq', arr(es) if name == 'windows' else tup(*es), v, (), r))]
    if name == 'is_empty': return [(st, op('Eq', length(collected(it)), ci(0)))]
    if name == 'dedup' or name == 'coalesce' or name == 'unique' or name == 'dedup_by':
        c = UNIT
        if f is not None and it.k == 'seq' and isinstance(it.a[3], T):
            ix = it.a[3]
            x, y = (subst(it.a[0], {ix: rng(site + (n,), ix.a[1], ix.a[2], ix.a[3])}) for n in ('a', 'b'))
            c = I.apply1(st, f, [x, y], site) or UNIT
        if name in ('dedup', 'dedup_by') and it.k == 'itarr':
            out = []
            for x in it.a[0]:
                if out:
                    q = op('Eq', out[-1], x) if name == 'dedup' else I.apply1(st, f, [out[-1], x], site + ('d',))
                    q = simplify(q, st.f) if q is not None else None
                    if q is TRUE: continue
                    if q is not FALSE: return None
                out.append(x)
            return [(st, mk('itarr', tuple(out)))]
        if name == 'coalesce' and it.k == 'itarr' and f is not None:
            out = []
            for x in it.a[0]:
                if out:
                    q = I.apply1(st, f, [out[-1], x], site + ('d',))
                    q = simplify(q, st.f) if q is not None else None
                    if q is not None and q.k == 'gphi':
                        live = [y for g, y in q.a[0] if St({}, st.f).assume_all(g)]
                        q = live[0] if len(live) == 1 else None
                    if q is None or q.k != 'adt' or q.a[0] != RES: return None
                    if q.a[1] == 'Ok': out[-1] = q.a[3][0]; continue
                    y = q.a[3][0]
                    out[-1:] = [elem_tup(y, 0), elem_tup(y, 1)]
                    continue
                out.append(x)
            return [(st, mk('itarr', tuple(out)))]
        if it.k == 'seq': return [(st, mk('seq', it.a[0] if name != 'coalesce' else mk('elem', mk('call', name, (it, c)), it.a[3] if isinstance(it.a[3], T) else UNIT), it.a[1], it.a[2] + ((name, c),), it.a[3]))]
        return None
    if name == 'scan' and it.k == 'itarr':
        cell = ('h', mk('alloc', site))
        s0 = st.copy(); s0.s[cell] = args[1]
        live, done = [(s0, ())], []
        for x in it.a[0]:
            nxt = []
            for s, acc in live:
                for s2, r in I.call_value(s, args[2], [mk('ref', cell, ()), x], site):
                    if not (r.k == 'adt' and r.a[0] == OPT or r.k == 'opt'): return None
                    for s3, t, p in split(I, s2, r, 'Some'): (nxt if t else done).append((s3, acc + (p,) if t else acc))
            live = nxt
        return [(s, mk('itarr', a)) for s, a in live + done]
    if name == 'scan':
        return None
    if name == 'chunks':
        v = collected(it)
        if v.k == 'arr' and isint(args[1]) and args[1].a[1] > 0:
            n = args[1].a[1]
            return [(st, mk('itarr', tuple(arr(v.a[0][i:i + n]) for i in range(0, len(v.a[0]), n))))]
        r = rng(site, ci(0), mk('op', 'Div', (length(v), args[1])))
        return [(st, mk('seq', mk('slice', v, op('Mul', r, args[1]), op('Add', op('Mul', r, args[1]), args[1])), v, (), r))]
    return None
def sort_known(I, st, xs, f, name, site):
    """the sorted order when the facts decide every comparison"""
    def less(x, y):
        if f is None: r = mk('call', 'cmp', (x, y))
        elif name.endswith('key'): r = mk('call', 'cmp', (I.apply1(st, f, [x], site + ('k',)), I.apply1(st, f, [y], site + ('k',))))
        else: r = I.apply1(st, f, [x, y], site + ('c',))
        if r is None: return None
        c = simplify(is_var(r, 'Less'), st.f)
        if c.k == 'c': return c is TRUE
        ss = (st.assume(c), st.assume(c, False))
        if not ss[0]: return False
        if not ss[1]: return True
        if I.on_sort: I.on_sort(c)
        return None
    out = []
    for x in xs:
        i = len(out)
        while i > 0:
            l = less(x, out[i - 1])
            if l is None: return None
            if not l: break
            i -= 1
        out.insert(i, x)
    return tuple(out)
def elem_tup(t, i): return t.a[0][i] if t.k == 'tup' else project(t, str(i))
def is_shorter(la, lb):
    d = op('Sub', la, lb)
    return isint(d) and d.a[1] > 0
def revseq(it):
    e, src, tags, ix = it.a
    if isinstance(ix, T) and not ix.a[3] and not [t for t in tags if not (not isinstance(t, str) and t[0] == 'filter')]:
        m = {ix: op('Sub', op('Add', op('Sub', ix.a[2], ci(1)), ix.a[1]), ix)}
        return mk('seq', subst(e, m), src, tuple(t if isinstance(t, str) else (t[0], subst(t[1], m)) for t in tags), ix)
    t = tags[:-1] if tags and tags[-1] == 'rev' else tags + ('rev',)
    return mk('seq', e, src, t, ix)
def somes(it):
    """keep the payloads of a sequence of options"""
    if it.k == 'itcat': return mk('itcat', tuple(somes(p) for p in it.a[0]))
    if it.k == 'itarr':
        out = []
        for x in it.a[0]:
            c = is_var(x, 'Some')
            if c is FALSE: continue
            p = payload(x)
            out.append(mk('itarr', (p,)) if c is TRUE else mk('seq', p, arr((p,)), (('filter', c),), 0))
        if all(o.k == 'itarr' for o in out): return mk('itarr', tuple(o.a[0][0] for o in out))
        return mk('itcat', tuple(out))
    e, src, tags, ix = it.a
    c = is_var(e, 'Some')
    if c is TRUE: return mk('seq', payload(e), src, tags, ix)
    return mk('seq', payload(e), src, tags + (('filter', c),), ix)
def flat(I, st, it, site):
    """one level of flattening"""
    if it.k == 'itarr': return flat_parts(I, st, it.a[0], site)
    if it.k == 'itcat': return mk('itcat', tuple(x for p in it.a[0] for x in parts(flat(I, st, p, site))))
    e, src, tags, ix = it.a
    if is_opt(e): return somes(it)
    inner = e if e.k in ITERS else to_seq(I, st, e, site + ('flat',), True)
    if inner.k == 'itarr' and len(inner.a[0]) == 1: return mk('seq', inner.a[0][0], src, tags, ix)
    return mk('seq', inner, src, tags + ('flat',), ix)
def is_opt(e): return e.k == 'adt' and e.a[0] in (OPT, RES) or e.k == 'opt' or e.k == 'gphi' and all(is_opt(x) for f, x in e.a[0])
def flat_parts(I, st, xs, site):
    ps = []
    for i, x in enumerate(xs):
        if x.k == 'adt' and x.a[0] == OPT: ps.append(mk('itarr', x.a[3])); continue
        if x.k == 'opt': ps.append(mk('seq', x.a[1], arr((x.a[1],)), (('filter', x.a[0]),), 0)); continue
        p = x if x.k in ITERS else to_seq(I, st, x, site + ('flat', i), True)
        ps += parts(p)
    if all(p.k == 'itarr' for p in ps): return mk('itarr', tuple(y for p in ps for y in p.a[0]))
    return mk('itcat', tuple(ps))
def collect(I, st, it, info, site, name):
    it = mapseq(I, st, it, lambda s, e, k: I.value(s, e) if I.hasref(e) and e.k != 'ref' else e, site)
    tgt = None
    ga = [x for x in (info.get('ra') or info.get('a') or []) if isinstance(x, int)]
    if name == 'collect' and len(ga) > 1: tgt = I.m.ty(ga[-1])
    p = tgt.adt_path() if tgt is not None else None
    if p in (RES, OPT):
        pos = 'Ok' if p == RES else 'Some'
        mkpos = ok if p == RES else some
        if it.k == 'itarr':
            states = [(st, ())]
            out = []
            for x in it.a[0]:
                nx = []
                for s, acc in states:
                    for s2, t, pl in split(I, s, I.refine(s, x) if x.k == 'gphi' else x, pos):
                        if t: nx.append((s2, acc + (pl,)))
                        else: out.append((s2, err(pl) if p == RES else NONE))
                states = nx
            return out + [(s, mkpos(arr(acc))) for s, acc in states]
        good = mapseq(I, st, it, lambda s, e, k: payload(pos_only(e, pos), pos), site)
        conds = [is_var(x, pos) for x, cs in elems(it)]
        if all(c is TRUE for c in conds): return [(st, mkpos(collected(good)))]
        c = mk('call', 'all_ok', (it,))
        e0 = next(x for x, cs in elems(it) if is_var(x, pos) is not TRUE)
        bad = err(payload(pos_only(e0, 'Err'), 'Err')) if p == RES else NONE
        return [(s, mkpos(collected(good))) for s in st.assume(c)] + [(s, bad) for s in st.assume(c, False)]
    if p is not None and 'Hash' in p or p is not None and 'BTree' in p:
        return [(st, mk('call', 'collect_map', (it,)))]
    return [(st, collected(it))]
def pos_only(e, var):
    """alternatives of e that are the given variant"""
    if e.k == 'gphi':
        al = [(f, x) for f, x in e.a[0] if is_var(x, var) is not FALSE]
        if al: return gphi(tuple(al))
    return e
def search(I, st, it, name, f, site):
    if it.k == 'itarr' and name in ('any', 'all'):
        r = FALSE if name == 'any' else TRUE
        for i, x in enumerate(it.a[0]):
            c = I.apply1(st, f, [x], site + (i,))
            r = op('BitOr' if name == 'any' else 'BitAnd', r, c)
        return [(st, r)]
    if name in ('any', 'all'):
        cs = []
        for p in parts(it):
            if p.k == 'itarr':
                cs += [I.apply1(st, f, [x], site + (i,)) for i, x in enumerate(p.a[0])]
            else:
                c = I.apply1(filt(st, p.a[2]), f, [p.a[0]], site)
                if c is None: c = mk('c', 's', '<never>')
                if c in (TRUE, FALSE) : cs.append(c); continue
                cs.append(mk('call', name, (c, p.a[3] if isinstance(p.a[3], T) else UNIT)))
        r = FALSE if name == 'any' else TRUE
        for c in cs: r = op('BitOr' if name == 'any' else 'BitAnd', r, c)
        return [(st, r)]
    if it.k == 'itarr':
        out, cur = [], [st]
        for i, x in list(enumerate(it.a[0]))[::-1 if name in ('rposition', 'rfind') else 1]:
            nx = []
            for s in cur:
                for s2, r in I.call_value(s, f, [x], site + (i,)):
                    if name == 'find_map':
                        for s3, t, p in split(I, s2, r, 'Some'):
                            if t: out.append((s3, some(p)))
                            else: nx.append(s3)
                    else:
                        for s3 in s2.assume(r): out.append((s3, some(x if name in ('find', 'rfind') else ci(i))))
                        nx += s2.assume(r, False)
            cur = nx
        return out + [(s, NONE) for s in cur]
    if it.k == 'seq':
        e, src, tags, ix = it.a
        if isinstance(ix, T):
            n = rng(site, ix.a[1], ix.a[2], ix.a[3] + (name,))
            e = subst(e, {ix: n})
            tags = tuple(t if isinstance(t, str) else (t[0], subst(t[1], {ix: n})) for t in tags)
        else: n = UNIT
        r = I.apply1(filt(st, tags), f, [e], site)
        if r is None: return [(st, NONE)]
        if name == 'find_map':
            return [(st, mk('opt', is_var(r, 'Some'), payload(pos_only(r, 'Some'))))]
        pos = at(n) if isinstance(n, T) and n.k == 'rng' else mk('pos', n)
        return [(st, mk('opt', r, e if name in ('find', 'rfind') else pos))]
    return None

# ---- everything external ----------------------------------------------------------------------
IDENT = {'clone', 'to_owned', 'borrow', 'as_ref', 'deref', 'into_owned', 'to_vec', 'as_slice', 'into_boxed_slice', 'as_mut_slice', 'from_ref', 'must_use', 'black_box',
         'as_str', 'into_inner', 'to_string_lossy', 'new_unchecked', 'into_vec', 'unwrap_or_clone', 'identity', 'leak_ref', 'by_ref'}
BIN = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div', 'rem': 'Rem', 'bitand': 'BitAnd', 'bitor': 'BitOr', 'bitxor': 'BitXor'}
ASG = {k + '_assign': v for k, v in BIN.items()}
CMPF = {'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge', 'eq': 'Eq', 'ne': 'Ne'}

def outside(v, i, b):
    """a constant index or range outside of an explicit list"""
    while v.k == 'adt' and len(v.a[3]) == 1: v = v.a[3][0]
    if v.k != 'arr': return False
    n = len(v.a[0])
    if b is None: return isint(i) and not 0 <= i.a[1] < n
    lo, hi = b[0], ci(n) if b[1] is None else b[1]
    return isint(lo) and isint(hi) and not 0 <= lo.a[1] <= hi.a[1] <= n
def bound(a):
    """(lo, hi exclusive) of a range argument, hi None when open"""
    if a.k != 'adt': return None
    n = a.a[0].split('::')[-1]
    if n == 'Range': return project(a, 'start'), project(a, 'end')
    if n == 'RangeInclusive': return project(a, 'start'), op('Add', project(a, 'end'), ci(1))
    if n == 'RangeFrom': return project(a, 'start'), None
    if n == 'RangeTo': return ci(0), project(a, 'end')
    if n == 'RangeToInclusive': return ci(0), op('Add', project(a, 'end'), ci(1))
    if n == 'RangeFull': return ci(0), None
    return None
def uncow(v):
    if v.k == 'adt' and v.a[0] == COW: return v.a[3][0]
    if v.k == 'gphi' and any(x.k == 'adt' and x.a[0] == COW for f, x in v.a[0]): return gphi(tuple((f, uncow(x)) for f, x in v.a[0]))
    return v
def sliced(v, lo, hi):
    n = length(v)
    if hi is None: hi = n
    if lo is ci(0) and hi is n: return v
    if v.k == 'arr' and isint(lo) and isint(hi): return arr(v.a[0][lo.a[1]:hi.a[1]])
    if v.k == 'slice': return sliced(v.a[0], op('Add', v.a[1], lo), op('Add', v.a[1], hi))
    return mk('slice', v, lo, hi)

def external(I, st, info, path, args, site, span):
    name = info['name']
    tr = info.get('trait') or ''
    trn = tr.split('::')[-1].split('<')[0]
    crate = info.get('crate', '')
    D = lambda i: I.deref(st, args[i])
    V = lambda i: I.value(st, args[i])
    # operators
    if trn in ('Add', 'Sub', 'Mul', 'Div', 'Rem', 'BitAnd', 'BitOr', 'BitXor') and name in BIN: return [(st, op(BIN[name], V(0), V(1)))]
    if trn == 'Neg': 
        v = V(0)
        if v.k == 'arr': return [(st, arr([linear('Sub', ci(0), x) for x in v.a[0]]))]
        return [(st, linear('Sub', ci(0), v))]
    if trn == 'Not': return [(st, op('Not', V(0)))]
    if name in ASG and trn.endswith('Assign'):
        r = args[0]
        if r.k == 'ref':
            st = st.copy(); I.put(st, r.a[0], r.a[1], op(ASG[name], I.deref(st, r), I.value(st, args[1])))
        return [(st, UNIT)]
    if trn in ('PartialOrd', 'PartialEq', 'Ord') and name in CMPF or path.startswith('core::str::traits') and name == 'eq' or 'PartialEq' in path and name in ('eq', 'ne'):
        return [(st, op(CMPF[name], V(0), V(1)))]
    if trn == 'PartialOrd' and name == 'partial_cmp' or 'partial_cmp' in path: return [(st, some(mk('call', 'cmp', (V(0), V(1)))))]
    if name in ('cmp', 'total_cmp') and len(args) == 2: return [(st, mk('call', 'cmp', (V(0), V(1))))]
    if path.startswith('std::cmp::Ordering') or 'Ordering::' in path:
        v = V(0)
        if name == 'is_lt': return [(st, is_var(v, 'Less'))]
        if name == 'is_gt': return [(st, is_var(v, 'Greater'))]
        if name == 'is_eq': return [(st, is_var(v, 'Equal'))]
        if name == 'reverse' and v.k == 'call': return [(st, mk('call', 'cmp', v.a[1][::-1]))]
    if name in ('min', 'max') and len(args) == 2 and not path.startswith('std::iter') and 'Iterator' not in path: return [(st, op(name, V(0), V(1)))]
    if name == 'clamp' and len(args) == 3: return [(st, op('min', op('max', V(0), V(1)), V(2)))]
    if name in ('zero', 'one') and (trn in ('Zero', 'One') or not args): return [(st, cf(0 if name == 'zero' else 1))]
    if name in ('from_f64', 'from_f32', 'from_usize', 'from_isize', 'from_i32', 'from_u32', 'from_u64') and trn == 'FromPrimitive':
        v = V(0)
        return [(st, some(v if name.startswith('from_f') else cf(v.a[1]) if isint(v) else mk('op', 'tofloat', (v,))))]
    if name in ('to_f64', 'to_f32') and trn == 'ToPrimitive': return [(st, some(V(0)))]
    if name in ('to_usize', 'to_isize', 'to_i32') and trn == 'ToPrimitive' and numeric(V(0)) is not None and abs(numeric(V(0))) < 1e9:
        k = int(numeric(V(0)))
        return [(st, some(ci(k)) if k >= 0 and numeric(V(0)) > -1 or name != 'to_usize' else NONE)]
    if name in ('to_usize', 'to_isize', 'to_i32') and trn == 'ToPrimitive': return [(st, some(mk('op', 'toint', (V(0),))))]
    if path == 'nalgebra::convert' or trn == 'NumCast' and name == 'from' or path.endswith('as num_traits::NumCast>::from'):
        return [(st, V(0) if path == 'nalgebra::convert' else some(V(0)))]
    if name == 'abs' and len(args) == 1:
        k = numeric(V(0))
        if k is not None: return [(st, cf(abs(k)) if not isint(V(0)) else ci(abs(k)))]
    if name in ('floor', 'ceil', 'round', 'trunc') and len(args) == 1:
        k = numeric(V(0))
        if k is not None: return [(st, cf(float({'floor': math.floor, 'ceil': math.ceil, 'round': lambda x: math.floor(abs(x) + .5) * (1 if x >= 0 else -1), 'trunc': math.trunc}[name](k))))]
    if name in ('saturating_sub',) and isint(V(0)) and isint(V(1)): return [(st, ci(max(0, V(0).a[1] - V(1).a[1])))]
    if name in ('saturating_sub',):
        x, y = V(0), V(1)
        return [(st, ci(max(0, x.a[1] - y.a[1])) if isint(x) and isint(y) else mk('op', 'satsub', (x, y)))]
    if name in ('pow',) and len(args) == 2: return [(st, mk('op', 'pow', (V(0), V(1))))]
    # options and results
    if path.startswith('std::option::Option::<') or path.startswith('core::option::Option'):
        if name == 'unwrap_or_default':
            g = [I.m.ty(x) for x in (info.get('ra') or info.get('a') or []) if isinstance(x, int)]
            ds = [I.m.fns[x] for x in I.cg.by_trait.get(('std::default::Default', 'default'), []) if g and g[0].k == 'adt' and I.m.fns[x].self_adt() == g[0].adt_path()]
            if len(ds) == 1 and not I.nested(ds[0].id):
                v = I.deref(st, args[0])
                out = []
                for s2, t, p in split(I, st, v, 'Some'):
                    if t: out.append((s2, p)); continue
                    if ds[0].raw.get('derived'):
                        r = derived(I, s2, 'default', [], ds[0])
                        if r is not None: out += r; continue
                    out += I.call_fn(s2, ds[0], [], site + ('default',))
                return out
        r = option_call(I, st, name, args, site, False)
        if r is not None: return r
    if path.startswith('std::result::Result::<'):
        r = option_call(I, st, name, args, site, True)
        if r is not None: return r
    if trn == 'Try' and name == 'branch':
        v = D(0)
        isres = 'result::Result' in path
        pos = 'Ok' if isres else 'Some'
        c = is_var(v, pos)
        def br(t):
            w = pos_only(v, pos) if t else pos_only(v, 'Err' if isres else 'None')
            if t: return adt(CF, 'Continue', ('0',), (payload(w, pos),))
            return adt(CF, 'Break', ('0',), (err(payload(w, 'Err')) if isres else NONE,))
        return [(s, br(True) if t else br(False)) for t in (True, False) for s in st.assume(c, t)] if v.k != 'gphi' else \
               [(s, adt(CF, 'Continue', ('0',), (p,)) if t else adt(CF, 'Break', ('0',), (err(p) if isres else NONE,))) for s, t, p in split(I, st, v, pos)]
    if trn == 'FromResidual': 
        v = D(0)
        return [(st, v if v.k == 'adt' else err(payload(v, 'Err')))]
    if name == 'not' and crate == 'anyhow' and len(args) == 1: return [(st, op('Not', V(0)))]
    if path in ('anyhow::Ok', 'anyhow::private::Ok'): return [(st, ok(args[0]))]
    if trn == 'Default' and name == 'default':
        if 'Vec' in path: return [(st, arr(()))]
        if 'Option' in path: return [(st, NONE)]
        return [(st, mk('call', 'default', (mk('const', path),)))]
    # shared ownership and cells
    if path.startswith('std::rc::Rc') or path.startswith('<std::rc::Rc') or path.startswith('std::sync::Arc'):
        if name == 'new':
            k = mk('alloc', site)
            st = st.copy(); st.s[('h', k)] = args[0]
            return [(st, mk('rc', k))]
        if name in ('clone', 'deref', 'borrow', 'as_ref'): return [(st, D(0))]
        if name == 'downgrade': return [(st, D(0))]
        if name == 'ptr_eq': return [(st, op('Eq', V(0), V(1)))]
    if path.startswith('std::rc::Weak'):
        if name == 'upgrade': return [(st, some(D(0)))]
        if name == 'clone': return [(st, D(0))]
    if path.startswith('std::cell::RefCell'):
        if name == 'new': return [(st, args[0])]
        v = D(0)
        k = ('h', v.a[0]) if v.k == 'rc' else ('h', v)
        if name == 'borrow_mut': return [(st, mk('ref', k, ()))]
        if name == 'borrow': return [(st, I.get(st, k))]
        if name == 'into_inner': return [(st, v)]
    if 'RefMut' in path and name == 'deref_mut':
        r = args[0]
        v = I.get(st, r.a[0], r.a[1]) if r.k == 'ref' else r
        return [(st, v if v.k == 'ref' else r)]
    if ('RefMut' in path or 'cell::Ref' in path) and name == 'deref': return [(st, D(0))]
    # mutable views
    if name in ('deref_mut', 'as_mut', 'as_mut_slice', 'borrow_mut', 'by_ref', 'to_mut') and args and args[0].k == 'ref': return [(st, args[0])]
    if trn == 'IndexMut' and name == 'index_mut' or name == 'index_mut':
        r = args[0]
        if r.k == 'ref':
            i = V(1)
            b = bound(i)
            if i.k == 'tup': return [(st, mk('ref', r.a[0], r.a[1] + (('e', i),)))]
            if I.exact and outside(I.get(st, r.a[0], r.a[1]), i, b): return []      # panics
            if b is None: return [(st, mk('ref', r.a[0], r.a[1] + (('e', i),)))]
            return [(st, mk('ref', r.a[0], r.a[1] + (('e', mk('range', b[0], b[1] if b[1] is not None else UNIT)),)))]
    if trn == 'Index' and name == 'index' or name == 'index' and len(args) == 2:
        v, i = V(0), V(1)
        b = bound(i)
        if I.exact and outside(v, i, b): return []      # panics
        if b is not None: return [(st, sliced(v, b[0], b[1]))]
        return [(st, elem(v, i))]
    # vectors and slices
    vecish = path.startswith(('std::vec::', 'core::slice::', 'std::slice::', 'alloc::vec', 'alloc::slice')) or path.startswith('<std::vec::Vec') or path.startswith('std::collections::VecDeque')
    if path == 'std::vec::from_elem':
        v, n = V(0), V(1)
        return [(st, arr([v] * n.a[1]) if I.exact and isint(n) and 0 <= n.a[1] <= 512 else mk('fill', v, n))]
    if name == 'new_uninit' and 'Box' in path:
        k = mk('alloc', site)
        st = st.copy(); st.s[('h', k)] = mk('undef', 'box', 0)
        return [(st, mk('ref', ('h', k), ()))]
    if name == 'box_assume_init_into_vec_unsafe':
        v = args[0]
        if v.k == 'ref': v = I.get(st, v.a[0], v.a[1])
        for _ in range(3): v = project(v, 'value') if v.k == 'upd' else v
        return [(st, v)]
    if path.startswith('std::boxed::Box') and name == 'new': return [(st, args[0])]
    if path.startswith(('std::vec::Vec::<T>::new', 'std::vec::Vec::<T>::with_capacity')) or (name in ('new', 'with_capacity') and path.startswith(('std::vec::Vec', 'std::collections::VecDeque'))): return [(st, arr(()))]
    if vecish or (crate in ('alloc', 'core', 'std') and trn in ('Extend', 'FromIterator')):
        r = vec_call(I, st, name, args, site, path, info)
        if r is not None: return r
    if trn == 'FromIterator' and name == 'from_iter':
        return collect(I, st, to_seq(I, st, args[0], site, False), dict(info, a=info.get('a', [])[::-1]), site, 'collect')
    # iterators
    if trn == 'IntoIterator' or name == 'into_iter':
        v = args[0]
        if v.k == 'ref':
            t = I.get(st, v.a[0], v.a[1])
            if t.k in ITERS: return [(st, v)]
            return [(st, iter_mut(I, st, v, site))]
        if v.k in ITERS: 
            coll = 'Vec' in path or '[T' in path
            return [(st, to_seq(I, st, v, site, coll))]
        return [(st, to_seq(I, st, v, site, True))]
    if (trn in ('Iterator', 'Itertools', 'DoubleEndedIterator', 'ExactSizeIterator') or ' as std::iter::Iterator>' in path or 'impl std::iter::Iterator' in path) and name in ITER_METHODS and args:
        r = iter_call(I, st, name, args, site, info)
        if r is not None: return r
    if path.startswith('std::iter::'):
        if name == 'once': return [(st, mk('itarr', (args[0],)))]
        if name == 'empty': return [(st, mk('itarr', ()))]
        if name == 'repeat_n' and I.exact and isint(args[1]) and 0 <= args[1].a[1] <= 64: return [(st, mk('itarr', (args[0],) * args[1].a[1]))]
        if name in ('repeat', 'repeat_n'):
            r = rng(site, ci(0), args[1] if len(args) > 1 else mk('const', 'inf'))
            return [(st, mk('seq', V(0), UNIT, (), r))]
        if name == 'zip':
            return iter_call(I, st, 'zip', [to_seq(I, st, args[0], site + ('z0',), True), args[1]], site, info)
    if name == 'iter' and crate == 'nalgebra' or name == 'iter' and len(args) == 1:
        return [(st, to_seq(I, st, args[0], site, True))]
    if name == 'iter_mut' and len(args) == 1: return [(st, iter_mut(I, st, args[0], site))]
    # ranges
    if path.startswith('std::ops::RangeInclusive'):
        if name == 'new': return [(st, adt('std::ops::RangeInclusive', 'RangeInclusive', ('start', 'end'), (V(0), V(1))))]
        if name in ('start', 'end'): return [(st, project(D(0), name))]
        if name == 'contains':
            r, x = V(0), V(1)
            return [(st, op('BitAnd', op('Le', project(r, 'start'), x), op('Le', x, project(r, 'end'))))]
    if path.startswith('std::ops::Range::') and name == 'contains':
        r, x = V(0), V(1)
        return [(st, op('BitAnd', op('Le', project(r, 'start'), x), op('Lt', x, project(r, 'end'))))]
    k = path.split('::')[2] if name == 'contains' and path.startswith('std::ops::Range') else None
    if k in ('RangeFrom', 'RangeTo', 'RangeToInclusive') and len(args) == 2:
        r, x = V(0), V(1)
        return [(st, op('Le', project(r, 'start'), x) if k == 'RangeFrom' else op('Lt' if k == 'RangeTo' else 'Le', x, project(r, 'end')))]
    # calls of closures
    if trn in ('Fn', 'FnMut', 'FnOnce') and name.startswith('call'):
        f, t = args[0], args[1]
        return I.call_value(st, f, list(t.a[0]) if t.k == 'tup' else [t], site)
    # memory
    if path in ('std::mem::swap', 'core::mem::swap'):
        a, b = args
        if a.k == 'ref' and b.k == 'ref':
            x, y = I.get(st, a.a[0], a.a[1]), I.get(st, b.a[0], b.a[1])
            st = st.copy(); I.put(st, a.a[0], a.a[1], y); I.put(st, b.a[0], b.a[1], x)
            return [(st, UNIT)]
    if path in ('std::mem::replace', 'std::mem::take', 'core::mem::replace', 'core::mem::take'):
        a = args[0]
        if a.k == 'ref':
            x = I.get(st, a.a[0], a.a[1])
            st = st.copy(); I.put(st, a.a[0], a.a[1], args[1] if len(args) > 1 else mk('call', 'default', ()))
            return [(st, x)]
    if path.startswith(('std::mem::drop', 'std::mem::forget')): return [(st, UNIT)]
    # identities
    if name in IDENT and len(args) == 1:
        return [(st, uncow(V(0)))]
    if name in ('into', 'from') and trn in ('Into', 'From') and len(args) == 1: return [(st, V(0))]
    if name in ('try_into', 'try_from') and len(args) == 1: return [(st, mk('call', 'try_into', (V(0),)))]
    if crate == 'nalgebra':
        if name == 'new' and len(args) >= 2: return [(st, arr([I.value(st, a) for a in args]))]
        if name in ('from_slice', 'from_coordinates', 'as_slice', 'from_vec', 'to_vec'): return [(st, I.value(st, args[-1]) if name != 'from_vec' or len(args) == 1 else mk('call', 'from_vec', tuple(I.value(st, a) for a in args)))]
        if name == 'cast': return [(st, V(0))]
        if name == 'lerp' and len(args) == 3: return [(st, mk('call', 'lerp', tuple(I.value(st, a) for a in args)))]
        if name == 'len': return [(st, length(V(0)))]
    if name == 'abs' and len(args) == 1: return [(st, mk('call', 'abs', (V(0),)))]
    if path.startswith('std::prelude') or info.get('ctor'):
        if name == 'Some': return [(st, some(args[0]))]
    # constructors used as functions
    if name in ('Some', 'Ok', 'Err') and len(args) == 1:
        return [(st, {'Some': some, 'Ok': ok, 'Err': err}[name](args[0]))]
    c = ctor(I, path)
    if c is not None and len(args) == len(c[2]): return [(st, adt(c[0], c[1], c[2], [I.value(st, a) if a.k == 'ref' else a for a in args]))]
    return None
_ctors = {}
def ctor(I, path):
    if not _ctors.get('done'):
        _ctors['done'] = True
        for a in I.m.adts:
            for v in a['v']:
                names = tuple(x['n'] for x in v['f'])
                if names and names[0] == '0':
                    _ctors[a['path'] + ('::' + v['n'] if a['kind'] == 'enum' else '')] = (a['path'], v['n'], names)
    return _ctors.get(re.sub(r'::<[^>]*>', '', path))

def vec_call(I, st, name, args, site, path, info):
    a0 = args[0]
    ref = a0 if a0.k == 'ref' else None
    n = 0
    while ref is not None and n < 4:
        t = I.get(st, ref.a[0], ref.a[1])
        if t.k != 'ref': break
        ref = t; n += 1
    v = I.deref(st, a0)
    V = lambda i: I.value(st, args[i])
    def setv(x, r=UNIT):
        s = st.copy()
        if ref is not None: I.put(s, ref.a[0], ref.a[1], x)
        return [(s, r)]
    if name == 'len': return [(st, length(v))]
    if name == 'is_empty': return [(st, op('Eq', length(v), ci(0)))]
    if name in ('iter', 'into_iter') :
        if name == 'into_iter' and ref is not None: return [(st, iter_mut(I, st, ref, site))]
        return [(st, to_seq(I, st, v, site, True))]
    if name == 'iter_mut': return [(st, iter_mut(I, st, ref if ref is not None else a0, site))]
    if name == 'push' and ref is not None: return setv(cat([v, arr((args[1],))]))
    if name in ('extend', 'extend_from_slice', 'append') and ref is not None:
        x = args[1]
        if name == 'append':
            y = I.deref(st, x)
            r = setv(cat([v, y]))
            if x.k == 'ref': I.put(r[0][0], x.a[0], x.a[1], arr(()))
            return r
        it = I.deref(st, x)
        if it.k not in ITERS: it = to_seq(I, st, it, site, True)
        return setv(cat([v, collected(it)]))
    if name == 'insert' and ref is not None and len(args) == 3:
        i = V(1)
        if i is ci(0): return setv(cat([arr((args[2],)), v]))
        if i is length(v): return setv(cat([v, arr((args[2],))]))
        if v.k == 'arr' and isint(i): return setv(arr(v.a[0][:i.a[1]] + (args[2],) + v.a[0][i.a[1]:]))
        return setv(mk('call', 'insert', (v, i, I.value(st, args[2]))))
    if name == 'remove' and ref is not None:
        i = V(1)
        if v.k == 'arr' and isint(i) and i.a[1] < len(v.a[0]): return setv(arr(v.a[0][:i.a[1]] + v.a[0][i.a[1] + 1:]), v.a[0][i.a[1]])
        return setv(mk('call', 'remove', (v, i)) if i is not ci(0) else sliced(v, ci(1), None), elem(v, i))
    if name == 'swap_remove' and ref is not None and v.k == 'arr' and isint(V(1)):
        i, xs = V(1).a[1], list(v.a[0])
        if i >= len(xs): return []      # panics
        x, last = xs[i], xs.pop()
        if i < len(xs): xs[i] = last
        return setv(arr(xs), x)
    if name == 'push_front' and ref is not None: return setv(cat([arr((args[1],)), v]))
    if name == 'push_back' and ref is not None: return setv(cat([v, arr((args[1],))]))
    if name in ('pop_front', 'pop_back') and ref is not None and v.k == 'arr':
        xs = tuple(v.a[0])
        if not xs: return [(st, NONE)]
        return setv(arr(xs[1:]), some(xs[0])) if name == 'pop_front' else setv(arr(xs[:-1]), some(xs[-1]))
    if name == 'resize' and ref is not None and v.k == 'arr' and isint(V(1)) and 0 <= V(1).a[1] <= 512:
        n = V(1).a[1]
        return setv(arr(v.a[0][:n] + (args[2],) * max(0, n - len(v.a[0]))))
    if name == 'pop' and ref is not None:
        if v.k == 'arr':
            if not v.a[0]: return [(st, NONE)]
            return setv(arr(v.a[0][:-1]), some(v.a[0][-1]))
        l = length(v)
        last = op('Sub', l, ci(1))
        return setv(sliced(v, ci(0), last) if v.k != 'loop' else mk('call', 'popped', (v,)), mk('opt', op('Not', op('Eq', l, ci(0))), elem(v, last)))
    if name == 'truncate' and ref is not None: return setv(sliced(v, ci(0), V(1)))
    if name == 'clear' and ref is not None: return setv(arr(()))
    if name == 'fill' and vecish and ref is not None and v.k == 'arr': return setv(arr((V(1),) * len(v.a[0])))
    if name == 'dedup' and ref is not None and V(0).k == 'arr' and all(x.k in ('const', 'num') or numeric(x) is not None for x in V(0).a[0]):
        out = []
        for x in V(0).a[0]:
            if not out or numeric(out[-1]) != numeric(x): out.append(x)
        return setv(arr(out))
    if name == 'drain' and ref is not None:
        b = bound(V(1))
        if b is None: return None
        lo, hi = b
        rest = cat([sliced(v, ci(0), lo), sliced(v, hi, None)]) if hi is not None and hi is not length(v) else (sliced(v, ci(0), lo) if lo is not ci(0) else arr(()))
        return setv(rest, to_seq(I, st, sliced(v, lo, hi), site, True))
    if name == 'split_off' and ref is not None:
        return setv(sliced(v, ci(0), V(1)), sliced(v, V(1), None))
    if name == 'reverse' and ref is not None:
        if v.k == 'arr': return setv(arr(v.a[0][::-1]))
        it = iter_call(I, st, 'rev', [to_seq(I, st, v, site, True)], site, info)[0][1]
        return setv(collected(it))
    if name in ('sort_by', 'sort_unstable_by', 'sort', 'sort_by_key', 'dedup', 'dedup_by', 'retain', 'dedup_by_key') and ref is not None:
        if name == 'sort' : c = UNIT
        if len(args) > 1:
            it = to_seq(I, st, v, site, True)
            if it.k == 'itarr' and len(it.a[0]) <= 1 and name.startswith(('sort', 'dedup')): return [(st, UNIT)]
            if it.k == 'itarr' and name == 'retain': return setv(collected(add_filter(it, lambda e: I.apply1(st, args[1], [e], site))))
            if it.k == 'itarr' and name.startswith('sort'):
                o = sort_known(I, st, it.a[0], args[1], name, site)
                if o is not None: return setv(arr(o))
            if it.k == 'itarr': it = over(v, site)
            if it.k == 'seq':
                if name == 'retain':
                    return setv(collected(add_filter(it, lambda e: I.apply1(st, args[1], [e], site))))
                ix = it.a[3]
                if isinstance(ix, T):
                    x, y = (subst(it.a[0], {ix: rng(site + (q,), ix.a[1], ix.a[2], ix.a[3])}) for q in ('a', 'b'))
                    c = I.apply1(st, args[1], [x] if name.endswith('key') else [x, y], site) or UNIT
                    return setv(mk('seq', it.a[0], it.a[1], it.a[2] + (('sorted' if name.startswith('sort') else name, c),), ix))
            return setv(mk('call', name, (v,)))
        return setv(mk('call', name, (v,)))
    if name in ('rotate_left', 'rotate_right') and ref is not None and v.k == 'arr' and isint(V(1)) and v.a[0]:
        k = V(1).a[1] % len(v.a[0]) if name == 'rotate_left' else -V(1).a[1] % len(v.a[0])
        return setv(arr(v.a[0][k:] + v.a[0][:k]))
    if name in ('swap',) and ref is not None:
        i, j = V(1), V(2)
        x, y = elem(v, i), elem(v, j)
        return setv(set_in(set_in(v, (('e', i),), y), (('e', j),), x))
    if name in ('first', 'last', 'get', 'first_mut', 'last_mut', 'get_mut'):
        l = length(v)
        base = name.split('_')[0]
        i = ci(0) if base == 'first' else op('Sub', l, ci(1)) if base == 'last' else V(1)
        c = op('Not', op('Eq', l, ci(0))) if base != 'get' else op('Lt', i, l)
        if base == 'get':
            b = bound(i)
            if b is not None: return [(st, mk('opt', mk('call', 'in_bounds', (v, i)), sliced(v, b[0], b[1])))]
        if name.endswith('_mut') and ref is not None:
            return [(st, mk('opt', c, mk('ref', ref.a[0], ref.a[1] + (('e', i),))))]
        return [(st, mk('opt', c, elem(v, i)))]
    if name in ('concat',):
        it = to_seq(I, st, v, site, True)
        return [(st, collected(flat(I, st, it, site)))]
    if name in ('to_vec', 'clone', 'as_slice', 'deref', 'into_boxed_slice', 'to_owned', 'into_vec', 'as_ref', 'borrow'): return [(st, I.value(st, v))]
    if name in ('clone_from_slice', 'copy_from_slice') and ref is not None: return setv(V(1))
    if name in ('deref_mut', 'as_mut_slice', 'as_mut') and ref is not None: return [(st, ref)]
    if name in ('index',):
        i = V(1)
        b = bound(i)
        return [(st, sliced(v, b[0], b[1]) if b is not None else elem(v, i))]
    if name == 'contains': return [(st, mk('call', 'contains', (v, V(1))))]
    if name == 'eq': return [(st, op('Eq', v, V(1)))]
    if name == 'ne': return [(st, op('Ne', v, V(1)))]
    if name == 'split_at': return [(st, tup(sliced(v, ci(0), V(1)), sliced(v, V(1), None)))]
    if name in ('split_first', 'split_last'):
        l = length(v); c = op('Not', op('Eq', l, ci(0)))
        return [(st, mk('opt', c, tup(elem(v, ci(0)), sliced(v, ci(1), None)) if name == 'split_first' else tup(elem(v, op('Sub', l, ci(1))), sliced(v, ci(0), op('Sub', l, ci(1))))))]
    if name in ('resize',) and ref is not None: return setv(mk('call', 'resize', (v, V(1), V(2))))
    if name in ITER_METHODS: return iter_call(I, st, name, args, site, info)
    return None
