"""Fixpoint engine: value-flow over MIR with inlining, guarded joins and loop closed forms (see sym.py)."""
from sym import *
from util import callee, short
import json, os, time

START, DEADLINE = time.time(), 540   # after that many seconds each evaluation gets 0.3 s only: a check must end within 900 s

class Event:
    __slots__ = ('name', 'args', 'facts', 'span', 'fn', 'ctx', 'ret', 'gen')
    def __init__(s, **k):
        for x, v in k.items(): setattr(s, x, v)
    def __repr__(s): return '%s(%s) @%s if %s' % (s.name, ', '.join(map(show, s.args)), s.span, showf(s.facts))

class FInfo:
    """cached per-function structure: rpo, loops, liveness"""
    def __init__(self, f):
        self.f = f
        blocks = f.reachable_blocks()
        order, seen = [], set()
        st = [(0, iter(f.succ(0)))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s in blocks and s not in seen:
                    seen.add(s); st.append((s, iter(f.succ(s)))); break
            else:
                order.append(b); st.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        preds = {b: [] for b in order}
        for b in order:
            for s in f.succ(b):
                if s in preds: preds[s].append(b)
        # dominators
        dom = {0: 0}
        ch = True
        def inter(a, b):
            while a != b:
                while self.rpo[a] > self.rpo[b]: a = dom[a]
                while self.rpo[b] > self.rpo[a]: b = dom[b]
            return a
        while ch:
            ch = False
            for b in order[1:]:
                ps = [p for p in preds[b] if p in dom]
                n = ps[0]
                for p in ps[1:]: n = inter(n, p)
                if dom.get(b) != n: dom[b] = n; ch = True
        def dominates(a, b):
            while True:
                if a == b: return True
                if b == 0: return False
                b = dom[b]
        self.loops = {}
        for b in order:
            for s in f.succ(b):
                if s in preds and dominates(s, b):
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x); st += preds[x]
        # liveness
        self.taken = set()
        use, dfn = {}, {}
        for b in order:
            u, d = set(), set()
            def rp(p):
                if p['l'] not in d: u.add(p['l'])
                for e in p['p']:
                    if e[0] == 'i' and e[1] not in d: u.add(e[1])
            def ro(o):
                if 'cp' in o: rp(o['cp'])
                elif 'mv' in o: rp(o['mv'])
            def wp(p):
                if p['p']: rp(p)
                else: d.add(p['l'])
            for s in f.blocks[b]['s']:
                if s[0] != '=':
                    rp(s[1]); continue
                r = s[2]
                k = r[0]
                if k == 'use': ro(r[1])
                elif k == 'repeat': ro(r[1])
                elif k in ('ref', 'raw'):
                    p = r[2] if k == 'ref' else r[1]
                    rp(p)
                    if (k == 'raw' or r[1] == 'mut'): self.taken.add(p['l'])
                elif k == 'cast': ro(r[2])
                elif k == 'bin': ro(r[2]); ro(r[3])
                elif k == 'un': ro(r[2])
                elif k == 'discr': rp(r[1])
                elif k == 'agg':
                    for o in r[2]: ro(o)
                wp(s[1])
            t = f.blocks[b]['t']
            if t[0] == 'switch' or t[0] == 'assert': ro(t[1])
            elif t[0] == 'call':
                if 'dyn' in t[1]: ro(t[1]['dyn'])
                for o in t[2]: ro(o)
                wp(t[3])
            elif t[0] == 'return': u.add(0) if 0 not in d else None
            use[b], dfn[b] = u, d
        self.live = {b: set() for b in order}
        ch = True
        while ch:
            ch = False
            for b in reversed(order):
                o = set()
                for s in f.succ(b):
                    if s in self.live: o |= self.live[s]
                n = use[b] | (o - dfn[b])
                if n != self.live[b]: self.live[b] = n; ch = True

SITE = {}
class Interp:
    def __init__(self, m, cg, opaque=(), inline=(), watch=None, cap=16, budget=60000, inline_all=False, depth=24, assume_some=()):
        self.m, self.cg = m, cg
        self.opaque, self.inline, self.inline_all = opaque, inline, inline_all
        self.watch = watch
        self.cap, self.budget, self.maxdepth = cap, budget, depth
        self.events = []
        self.fi = {}
        self.ctxs = {}
        self.ctxinfo = [None]
        self.loopdefs = {}
        self.memo = {}
        self.refs = {}
        self.work = 0
        self.stack = []
        self.recursion = 1       # how many calls of one function may be open
        self.loopstack = []
        self.analysed = set()
        self.opaque_calls = {}
        self.curspan = ''
        self.clonefn = {}
        self.override = None
        self.unroll = 0
        self.on_sort = None
        self.t_begin = time.time()
        self.t_end = self.t_begin + 90
        self.ground = EMPTY
        base = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'base_exported.json')
        self.base = set(json.load(open(base))) if os.path.exists(base) else set()
        import models
        self.models = models

    # ---- helpers ----
    def finfo(self, f):
        x = self.fi.get(f.id)
        if x is None: x = self.fi[f.id] = FInfo(f)
        return x
    def ctx(self, *key):
        i = self.ctxs.get(key)
        if i is None:
            i = self.ctxs[key] = len(self.ctxinfo); self.ctxinfo.append(key)
        return i
    def hasref(self, t):
        r = self.refs.get(t)
        if r is None:
            if t.k in ('ref', 'rc'): r = True
            else: r = any(self.hasref(c) for c in children(t))
            self.refs[t] = r
        return r

    # ---- store access ----
    def default(self, base):
        if base[0] == 'h': return mk('heap', base[1])
        return mk('undef', str(base[0]), base[1] if isinstance(base[1], (int, str)) else 0)
    def get(self, st, base, path=()):
        v = st.s.get(base)
        if v is None: v = self.default(base)
        for p in path:
            if v.k == 'ref': v = self.get(st, v.a[0], v.a[1])
            if p[0] == 'f': v = project(v, p[1])
            elif p[0] == 'v': v = vproject(v, p[1], p[2])
            elif p[0] == 'e': v = elem(v, p[1])
        if v.k == 'gphi': v = self.refine(st, v)
        return v
    def refine(self, st, v):
        al = [(f, x) for f, x in v.a[0] if not contradictory(st.f | f)]
        if len(al) == len(v.a[0]) or not al: return v
        return gphi(tuple(al))
    def put(self, st, base, path, v):
        if path:
            old = st.s.get(base)
            if old is None: old = self.default(base)
            v = set_in(old, path, v)
        st.s[base] = v
    def deref(self, st, v):
        """value behind mutable references"""
        n = 0
        while v.k == 'ref' and n < 8:
            v = self.get(st, v.a[0], v.a[1]); n += 1
        return v
    def value(self, st, v):
        """term with every mutable reference replaced by the current value behind it"""
        if not self.hasref(v): return v
        memo = {}
        def w(x, d):
            if isinstance(x, tuple): return tuple(w(y, d) for y in x)
            if not isinstance(x, T) or not self.hasref(x) or d > 12: return x
            if x in memo: return memo[x]
            if x.k == 'ref': r = w(self.get(st, x.a[0], x.a[1]), d + 1)
            elif x.k == 'rc': r = x
            else:
                a = tuple(w(y, d + 1) for y in x.a)
                r = x if a == x.a else rebuild(x.k, a)
            memo[x] = r
            return r
        return w(v, 0)

    def loc(self, st, cx, place):
        base, path = (cx, place['l']), ()
        pend = None
        for e in place['p']:
            k = e[0]
            if k == '*':
                v = self.get(st, base, path)
                if v.k == 'ref': base, path = v.a[0], v.a[1]
                elif v.k == 'gphi' and all(x.k == 'ref' for f, x in v.a[0]):
                    base, path = v.a[0][0][1].a[0], v.a[0][0][1].a[1]     # resolved by splitting in exec_block when possible
            elif k == 'f':
                if pend is not None: path = path + (('v', pend, e[2]),); pend = None
                else: path = path + (('f', e[2]),)
            elif k == 'd': pend = e[2]
            elif k == 'i':
                path = path + (('e', self.get(st, (cx, e[1]))),)
            elif k == 'c':
                if e[3]: 
                    v = self.get(st, base, path)
                    path = path + (('e', op('Sub', length(v), ci(e[1]))),)
                else: path = path + (('e', ci(e[1])),)
            elif k == 's':
                path = path + (('f', '[%d..%s%d]' % (e[1], '-' if e[3] else '', e[2])),)
        return base, path
    def read(self, st, cx, place):
        b, p = self.loc(st, cx, place)
        v = self.get(st, b, p)
        return v
    def operand(self, st, cx, f, o):
        if 'cp' in o: return self.read(st, cx, o['cp'])
        if 'mv' in o: return self.read(st, cx, o['mv'])
        return self.const(f, o['c'])
    def const(self, f, c):
        if 'fn' in c:
            x = c['fn']
            key = x.get('rpath', x['path'])
            i = self.models.fnref(self, x)
            return mk('fn', key, i)
        if 'promoted' in c:
            g = self.m.promoted.get((f.id, c['promoted']))
            if g is None and f.kind == 'Promoted':
                g = self.m.promoted.get((f.id.split('::promoted')[0], c['promoted']))
            if g is None: return mk('const', 'promoted', f.id, c['promoted'])
            outs = self.call_fn(St({}), g, [], '', plain=True)
            return self.value(outs[0][0], outs[0][1]) if len(outs) == 1 else mk('const', 'promoted', f.id, c['promoted'])
        if 'int' in c: return ci(int(c['int']))
        if 'float' in c: return cf(float(c['float']))
        if 'str' in c: return cs(c['str'])
        ty = self.m.ty(c['ty'])
        if ty.k == 'tuple' and not ty.d.get('a'): return UNIT
        if ty.k == 'closure': return mk('clo', ty.d['def'], ())
        if ty.k == 'fndef': return mk('const', ty.s)
        if ty.k == 'adt' and 'item' not in c:
            a = ty.adt()
            if a['kind'] == 'struct' and not a['v'][0]['f']: return adt(a['path'], a['v'][0]['n'], (), ())
            s = c.get('s', '')
            for v in a['v']:
                if not v['f'] and (s.endswith('::' + v['n']) or s == v['n']): return adt(a['path'], v['n'], (), ())
        if 'item' not in c and c.get('s') in self.consts: return ci(self.consts[c['s']])
        return mk('const', c.get('item') or c.get('s', '?'))

    # ---- rvalues ----
    def rvalue(self, st, cx, f, r):
        k = r[0]
        if k == 'use': return self.operand(st, cx, f, r[1])
        if k == 'ref' or k == 'raw':
            place = r[2] if k == 'ref' else r[1]
            if k == 'raw' or r[1] == 'mut':
                b, p = self.loc(st, cx, place)
                v = self.get(st, b, p)
                return mk('ref', b, p)
            return self.read(st, cx, place)
        if k == 'cast':
            v = self.operand(st, cx, f, r[2])
            kind, ty = r[1], self.m.ty(r[3])
            if kind == 'BoxDerefTransmute':
                pl = r[2].get('cp') or r[2].get('mv')
                if pl and pl['p'] and pl['p'][-1][0] == 'f':
                    w = self.read(st, cx, {'l': pl['l'], 'p': pl['p'][:-1]})
                    if w.k == 'ref': return w
            if kind.startswith('IntToFloat'): return cf(v.a[1]) if isint(v) else mk('op', 'tofloat', (v,))
            if kind.startswith('FloatToInt'):
                k = numeric(v)
                return ci(int(k)) if k is not None and k == k and abs(k) < 1e15 else mk('op', 'toint', (v,))
            return v
        if k == 'bin':
            a, b = self.operand(st, cx, f, r[2]), self.operand(st, cx, f, r[3])
            o = r[1]
            if o.endswith('WithOverflow'): return tup(op(o[:-12], a, b), FALSE)
            if o.endswith('Unchecked'): o = o[:-9]
            if o == 'Le': return op('Not', op('Lt', b, a)) if self.is_int(st, f, r[2]) else op('Le', a, b)
            if o == 'Ge': return op('Not', op('Lt', a, b)) if self.is_int(st, f, r[2]) else op('Le', b, a)
            return op(o, a, b)
        if k == 'un':
            a = self.operand(st, cx, f, r[2])
            if r[1] == 'PtrMetadata': return length(a)
            if r[1] == 'Not': return op('Not', a)
            if r[1] == 'Neg' and numeric(a) is not None: return (cf if a.a[0] == 'f' else ci)(-numeric(a))
            return op(r[1], a)
        if k == 'discr':
            v = self.deref(st, self.read(st, cx, r[1]))
            return self.discr(v, r[2])
        if k == 'agg':
            kk = r[1]
            vs = [self.operand(st, cx, f, o) for o in r[2]]
            if kk[0] == 'tuple': return tup(*vs)
            if kk[0] == 'array': return arr(vs)
            if kk[0] == 'adt':
                return adt(kk[1], kk[2], kk[4], vs)
            if kk[0] == 'closure': return mk('clo', kk[1], tuple(vs))
            return mk('agg', kk[0], tuple(vs))
        if k == 'repeat':
            v = self.operand(st, cx, f, r[1])
            n = r[2]
            if n.isdigit() and int(n) <= 8: return arr([v] * int(n))
            return mk('fill', v, ci(int(n)) if n.isdigit() else mk('const', n))
        return mk('other', str(r)[:80])
    def is_int(self, st, f, o):
        if 'c' in o: return 'int' in o['c']
        p = o.get('cp') or o.get('mv')
        if p['p']: return False
        return self.m.ty(f.locals[p['l']]).s in ('usize', 'isize', 'i32', 'u32', 'u64', 'i64', 'u8')
    def variants(self, tyi):
        ty = self.m.ty(tyi)
        while ty.k in ('ref', 'ptr'): ty = ty.inner()
        a = ty.adt()
        return [(v['n'], int(v['d']) if v['d'] is not None else i) for i, v in enumerate(a['v'])] if a else []
    def discr(self, v, tyi):
        if v.k == 'adt':
            for n, d in self.variants(tyi):
                if n == v.a[1]: return ci(d)
        return mk('discr', v, tyi)

    # ---- blocks ----
    def exec_block(self, f, cx, b, st):
        """list of (target block or None, state)"""
        self.work += 1
        if self.work & 255 == 0:
            now = time.time()
            if now > self.t_end: raise Budget('time limit in ' + f.id)
            if now > START + DEADLINE and now > self.t_begin + 0.3: raise Budget('the check has used up its time, in ' + f.id)
        if self.work > self.budget: raise Budget('work budget exceeded in ' + f.id)
        bb = f.blocks[b]
        st = st.copy()
        for s in bb['s']:
            if s[0] == '=':
                v = self.rvalue(st, cx, f, s[2])
                base, path = self.loc(st, cx, s[1])
                self.put(st, base, path, v)
            elif s[0] == 'setd':
                base, path = self.loc(st, cx, s[1])
                self.put(st, base, path, mk('havoc', self.get(st, base, path)))
        t = bb['t']
        k = t[0]
        if k == 'goto': return [(t[1], st)]
        if k == 'drop': return [(t[2], st)]
        if k == 'assert':
            return [(t[4], st)]
        if k == 'return': return [(None, st)]
        if k == 'switch':
            v = self.operand(st, cx, f, t[1])
            return self.switch(st, v, t, f)
        if k == 'call':
            self.curspan = bb['sp']
            args = [self.operand(st, cx, f, o) for o in t[2]]
            if 'dyn' in t[1]:
                fv = self.operand(st, cx, f, t[1]['dyn'])
                outs = self.call_value(st, fv, args, (cx, b))
            else:
                outs = self.call(st, t[1]['fn'], args, (cx, b), bb['sp'], f)
            res = []
            if t[4] is None: return res
            for s2, r in outs:
                s2 = s2.copy()
                base, path = self.loc(s2, cx, t[3])
                self.put(s2, base, path, r)
                res.append((t[4], s2))
            return res
        return []
    def switch(self, st, v, t, f):
        targets, other = t[2], t[3]
        if v.k == 'c':
            for val, tb in targets:
                if v.a[1] == val or (isinstance(v.a[1], int) and v.a[1] % 256 == val % 256 and v.a[1] < 0): return [(tb, st)]
            return [(other, st)] if not f._dead(other) else []
        if v.k == 'gphi' and not all(x.k == 'c' for g, x in v.a[0]) or v.k == 'gphi':
            out = []
            for g, x in v.a[0]:
                f2 = st.f | g
                if not contradictory(f2): out += self.switch(St(st.s, f2), x, t, f)
            return out
        out = []
        if v.k == 'discr':
            x = v.a[0]
            if x.k == 'gphi':
                for g, y in x.a[0]:
                    f2 = st.f | g
                    if not contradictory(f2): out += self.switch(St(st.s, f2), self.discr(y, v.a[1]), t, f)
                return out
            vs = self.variants(v.a[1])
            rest = dict((d, n) for n, d in vs)
            for val, tb in targets:
                n = next((n for d, n in rest.items() if (d - val) % 256 == 0), None)
                if n is None: continue
                rest = {d: m for d, m in rest.items() if m != n}
                if f._dead(tb): continue
                for s2 in st.assume(is_var(x, n)): out.append((tb, s2))
            if not f._dead(other):
                if len(rest) == 1:
                    for s2 in st.assume(is_var(x, next(iter(rest.values())))): out.append((other, s2))
                elif rest:
                    ss = [st]
                    for n, d in vs:
                        if d not in rest:
                            ss = [s3 for s2 in ss for s3 in s2.assume(is_var(x, n), False)]
                    out += [(other, s2) for s2 in ss]
            return out
        ty = self.m.ty(t[4]).s if len(t) > 4 else ''
        if ty == 'bool':
            for val, tb in targets:
                for s2 in st.assume(v, bool(val)): out.append((tb, s2))
            vals = {bool(val) for val, tb in targets}
            if len(vals) == 1:
                for s2 in st.assume(v, not next(iter(vals))): out.append((other, s2))
            return out
        ss = [st]
        for val, tb in targets:
            c = op('Eq', v, ci(val))
            for s2 in st.assume(c): out.append((tb, s2))
            ss = [s3 for s2 in ss for s3 in s2.assume(c, False)]
        if not f._dead(other): out += [(other, s2) for s2 in ss]
        return out

    # ---- joins ----
    exact = False       # keep every alternative of the path condition apart (decision tables)
    consts = {}        # values of generic constants
    def reduce_facts(self, fs):
        """an equivalent smaller set of conjunctions"""
        fs = list(dict.fromkeys(fs))
        changed = True
        while changed and len(fs) > 1:
            changed = False
            for i in range(len(fs)):
                for j in range(len(fs)):
                    if i == j: continue
                    a, b = fs[i], fs[j]
                    if a <= b: fs.pop(j); changed = True; break
                    d = a ^ b
                    if len(d) == 2 and len({c for c, p in d}) == 1:
                        fs = [x for k, x in enumerate(fs) if k not in (i, j)] + [a & b]
                        changed = True; break
                if changed: break
        return fs
    def dedupe(self, sts):
        if self.exact:
            by = {}
            for s in sts: by.setdefault(frozenset(s.s.items()), []).append(s)
            return [St(l[0].s, f) for l in by.values() for f in (self.reduce_facts([s.f for s in l]) if len(l) > 1 else [l[0].f])]
        by = {}
        for s in sts:
            k = frozenset(s.s.items())
            if k in by: by[k] = St(s.s, by[k].f & s.f)
            else: by[k] = s
        return list(by.values())
    def prune(self, f, cx, b, st):
        fi = self.finfo(f)
        live, taken = fi.live[b], fi.taken
        dead = [k for k in st.s if k[0] == cx and k[1] not in live and k[1] not in taken]
        if not dead: return st
        s = dict(st.s)
        for k in dead: del s[k]
        return St(s, st.f)
    def merge(self, sts):
        """one state: differing locations become guarded choices"""
        if len(sts) == 1: return sts[0]
        common = frozenset.intersection(*[s.f for s in sts])
        keys = set()
        for s in sts: keys |= set(s.s)
        out = {}
        for k in keys:
            vs = [s.s.get(k) for s in sts]
            if all(v is vs[0] for v in vs): out[k] = vs[0]
            elif any(v is None for v in vs):
                if k[0] != 'h': continue
                out[k] = self.gmerge([(s.f - common, v) for s, v in zip(sts, vs) if v is not None])
            else:
                out[k] = self.gmerge([(s.f - common, v) for s, v in zip(sts, vs)])
        return St(out, common)
    def gmerge(self, al):
        """structural guarded merge"""
        v0 = al[0][1]
        if all(v is v0 for f, v in al): return v0
        if v0.k in ('adt',) and all(v.k == 'adt' and v.a[:3] == v0.a[:3] for f, v in al):
            return mk('adt', v0.a[0], v0.a[1], v0.a[2], tuple(self.gmerge([(f, v.a[3][i]) for f, v in al]) for i in range(len(v0.a[3]))))
        if v0.k == 'tup' and all(v.k == 'tup' and len(v.a[0]) == len(v0.a[0]) for f, v in al):
            return tup(*[self.gmerge([(f, v.a[0][i]) for f, v in al]) for i in range(len(v0.a[0]))])
        if any(v.k == 'ref' for f, v in al): return mk('gphi', tuple((f, v) for f, v in al))
        return gphi(tuple(al))
    def join(self, sts, f, cx, b):
        sts = self.dedupe([self.prune(f, cx, b, s) for s in sts])
        if len(sts) > self.cap:
            if self.exact: raise Budget()
            sts = [self.merge(sts)]
        return sts

    # ---- regions and loops ----
    def run_region(self, f, cx, entry, states, region, head):
        """returns (rets, backs, exits)"""
        fi = self.finfo(f)
        pend = {entry: list(states)}
        rets, backs, exits = [], [], []
        while pend:
            b = min(pend, key=lambda x: fi.rpo[x])
            sts = self.join(pend.pop(b), f, cx, b)
            for st in (self.limit(sts, 4) if b in fi.loops and b != head else sts):
                if b in fi.loops and b != head:
                    outs = self.run_loop(f, cx, b, st)
                else:
                    outs = self.exec_block(f, cx, b, st)
                for tgt, s2 in outs:
                    if tgt is None: rets.append(s2)
                    elif tgt == head: backs.append(s2)
                    elif region is not None and tgt not in region: exits.append((tgt, s2))
                    elif tgt in fi.rpo: pend.setdefault(tgt, []).append(s2)
        return rets, backs, exits
    def limit(self, sts, n):
        if len(sts) <= (max(n, self.cap) if self.exact else n): return sts
        if self.exact: raise Budget()
        return [self.merge(sts)]
    def run_loop(self, f, cx, h, st):
        body = self.finfo(f).loops[h]
        site = ('loop', cx, h)
        def step(cur):
            rets, backs, exits = self.run_region(f, cx, h, [cur], body, h)
            backs = self.limit(self.dedupe([self.prune(f, cx, h, s) for s in backs]), 8)
            return backs, [(None, s) for s in rets] + exits
        return self.fix(self.prune(f, cx, h, st), site, step)

    def fix(self, st0, site, step, unroll=None):
        """widening fixpoint of a loop; step(state) -> (back states, [(target, exit state)]); returns exits with closed forms"""
        # peeling: exact small iterators are unrolled
        out = []
        cur = st0
        peel = [st0]
        if unroll is None: unroll = self.unroll
        for n in range(max(14, unroll)):
            mark = len(self.events)
            nb, ne = [], []
            ok = all(any(v.k == 'itarr' for v in s.s.values()) for s in peel) or n < unroll
            if not ok: break
            progressed = True
            for s in peel:
                b, e = step(s)
                ne += e
                for x in b:
                    if not any(v.k == 'itarr' and v is not s.s.get(k) for k, v in x.s.items()) and n >= unroll: progressed = False
                nb += b
            if not progressed:
                del self.events[mark:]; break
            out += ne
            if not nb: return out
            peel = self.limit(self.dedupe(nb), 8)
        for s in peel:
            out += self.fix1(s, site, step)
        return out
    def fix1(self, st0, site, step):
        self.loopstack.append(site)
        try: return self.fix2(st0, site, step)
        finally: self.loopstack.pop()
    def fix2(self, st0, site, step):
        cur = st0
        for it in range(9):
            mark = len(self.events)
            backs, exits = step(cur)
            if not backs: return exits
            new, changed = {}, False
            for k, v in cur.s.items():
                bs = [b.s.get(k, v) for b in backs]
                w = self.widen(site, k, st0.s.get(k), v, bs, (), force=it >= 6)
                new[k] = w
                if w is not v: changed = True
            if not changed: break
            del self.events[mark:]
            cur = St(new, st0.f)
        # steps of each loop variable
        defs = {}
        for k, v in cur.s.items():
            if v is st0.s.get(k): continue
            for b in backs:
                self.collect(site, st0.s.get(k), v, b.s.get(k, v), b.f - st0.f, defs)
        for L, (init, steps) in defs.items():
            self.loopdefs[L] = (init, tuple(steps))
        if not defs: return self.strip(exits, site)
        # induction variables become ranges
        ind = {}
        for L, (init, steps) in defs.items():
            if all(x is op('Add', L, ci(1)) for fs, x in steps):
                hi = None
                for tgt, e in exits:
                    for c, p in e.f:
                        if c.k == 'op' and c.a[0] == 'Lt' and c.a[1][0] is L and not p: hi = (c.a[1][1], False)
                        if c.k == 'op' and c.a[0] == 'Lt' and c.a[1][1] is L and p: hi = (c.a[1][0], True)
                        if c.k == 'op' and c.a[0] == 'Eq' and p and L in c.a[1]: hi = (c.a[1][0] if c.a[1][1] is L else c.a[1][1], False)
                if hi is not None and not find(hi[0], lambda x: x.k == 'loop' and x.a[0] == site) :
                    ind[L] = mk('rng', site, init, op('Add', hi[0], ci(1)) if hi[1] else hi[0], ())
        ixs = set(ind.values())
        for tgt, e in exits:
            for c, p in e.f:
                if c.k == 'done' and c.a[1] == site: ixs.add(c.a[0])
        out = []
        if ind:
            self.subst_events(mark, ind)
        for tgt, e in exits:
            done = {c.a[0] for c, p in e.f if c.k == 'done' and c.a[1] == site}
            whole = bool(done)
            for L, r in ind.items():
                if (op('Lt', L, r.a[2]), False) in e.f or (op('Lt', op('Sub', r.a[2], ci(1)), L), True) in e.f or (op('Eq', r.a[2], L), True) in e.f:
                    if not any(c.k == 'done' for c, p in e.f): whole = True; done.add(r)
            m = {}
            ix = next(iter(sorted(done or ixs, key=lambda x: x.n)), None)
            for L, (init, steps) in defs.items():
                if L in ind:
                    m[L] = ind[L].a[2] if whole and ind[L] in done else ind[L]
                    continue
                c = self.closed(L, init, steps, ix, whole, ind)
                if c is not None: m[L] = c
            if not m:
                out.append((tgt, e)); continue
            ns = {k: self.subst_deep(v, m) for k, v in e.s.items()}
            mi = {L: r for L, r in m.items()}
            nf = frozenset((self.subst_deep(c, mi), p) for c, p in e.f)
            nf = frozenset((c, p) for c, p in nf if c.k != 'c')
            out.append((tgt, St(ns, nf)))
        return self.strip(out, site)
    def subst_deep(self, v, m): return subst(v, m)
    def strip(self, exits, site):
        return [(t, St(e.s, frozenset((c, p) for c, p in e.f if not (c.k == 'done' and c.a[1] == site)))) for t, e in exits]
    def subst_events(self, mark, m):
        for e in self.events[mark:]:
            e.args = [subst(a, m) for a in e.args]
            e.facts = frozenset((subst(c, m), p) for c, p in e.facts)
            if e.ret is not None: e.ret = subst(e.ret, m)
    def closed(self, L, init, steps, ix, whole, ind):
        """closed form of a loop variable after the loop"""
        vals = [x for f, x in steps]
        m0 = ind
        # updates of single fields of an aggregate
        if init is not None and any(x.k == 'upd' for x in vals) and all(x is L or x.k == 'upd' for x in vals):
            flds = set()
            for x in vals:
                while x.k == 'upd':
                    flds.add(x.a[1]); x = x.a[0]
                if x is not L: return None
            if any(n.startswith('@') for n in flds): return None
            sub = {n: mk('loop', L.a[0], L.a[1], L.a[2] + (n,), project(init, n)) for n in flds}
            res = init
            m = {mk('f', L, n): sub[n] for n in flds}
            for y in {y for x in vals for y in find(x, lambda y: y.k == 'f' and y.a[0] is L)}:
                if y not in m: m[y] = project(init, y.a[1])
            for n in sorted(flds):
                st2 = [(f, subst(project(x, n), m)) for f, x in steps]
                if any(contains(x, L) for f, x in st2): return None
                c = self.closed(sub[n], project(init, n), st2, ix, whole, ind)
                if c is None: return None
                res = set_in(res, (('f', n),), c)
            return res
        # pushes
        if all(x is L or (x.k == 'cat' and x.a[0][0] is L and not any(contains(y, L) for y in x.a[0][1:])) for x in vals):
            adds = [(f, x.a[0][1:]) for f, x in steps if x is not L]
            if not adds: return None
            tags = () if len(adds) == len(steps) else (('filter', self.guard([f for f, x in steps if x is not L], steps)),)
            if not whole: tags = tags + ('partial',)
            if init is None: return None
            if len({len(a) for f, a in adds}) == 1 and all(len(a) == 1 and a[0].k == 'arr' and len(a[0].a[0]) == 1 for f, a in adds):
                e = gphi(tuple((f, a[0].a[0][0]) for f, a in adds)) if len(adds) > 1 else adds[0][1][0].a[0][0]
            else:
                e = gphi(tuple((f, cat(a)) for f, a in adds)) if len(adds) > 1 else cat(adds[0][1])
                tags = tags + ('flat',)
            e = subst(e, m0)
            tags = tuple(t if isinstance(t, str) else (t[0], subst(t[1], m0)) for t in tags)
            return cat((init, mk('seq', e, self.src(ix), tags, ix if ix is not None else 0)))
        # element-wise update at the loop's own index
        if ix is not None:
            s2 = [(f, subst(x, m0)) for f, x in steps]
            ups = [(f, x) for f, x in s2 if x is not L]
            if ups and all(x.k == 'updi' and x.a[0] is L and x.a[1] is ix for f, x in ups) and init is not None:
                el = mk('elem', L, ix)
                old = elem(init, ix)
                al = [(f, subst(x.a[2], {el: old})) for f, x in ups]
                if all(not contains(v, L) for f, v in al):
                    if len(ups) < len(s2): al += [(f, old) for f, x in s2 if x is L]
                    v = gphi(tuple(al)) if len(al) > 1 else al[0][1]
                    if whole: return mk('updi', init, ix, v)
        return None
    def guard(self, fss, steps):
        """condition under which a step happens"""
        alts = []
        for f, x in steps:
            alts.append((f, TRUE if f in fss else FALSE))
        return gphi(tuple(alts)) if len({v for f, v in alts}) > 1 else TRUE
    def src(self, ix):
        if ix is None: return UNIT
        return tup(ix.a[1], ix.a[2]) if ix.k == 'rng' else UNIT
    def shape(self, a, b):
        if a.k != b.k: return None
        if a.k == 'adt' and a.a[:3] == b.a[:3] and a.a[3]: return a.a[3], b.a[3]
        if a.k == 'tup' and len(a.a[0]) == len(b.a[0]) and a.a[0]: return a.a[0], b.a[0]
        if a.k == 'clo' and a.a[0] == b.a[0] and a.a[1]: return a.a[1], b.a[1]
        return None
    def rebuild_like(self, w, vals):
        if w.k == 'adt': return mk('adt', w.a[0], w.a[1], w.a[2], tuple(vals))
        if w.k == 'tup': return tup(*vals)
        return mk('clo', w.a[0], tuple(vals))
    def widen(self, site, key, init, w, bs, path, force=False):
        if all(b is w for b in bs): return w
        if w.k == 'loop' and w.a[0] == site and w.a[1] == key and w.a[2] == path: return w
        if not force:
            sh = [self.shape(w, b) for b in bs]
            if all(sh):
                n = len(sh[0][0])
                ish = self.shape(w, init) if init is not None else None
                return self.rebuild_like(w, [self.widen(site, key, ish[1][i] if ish else None, sh[0][0][i], [x[1][i] for x in sh], path + (i,))
                                             for i in range(n)])
        return mk('loop', site, key, path, init if init is not None else UNIT)
    def collect(self, site, init, w, b, facts, defs):
        if w.k == 'loop' and w.a[0] == site:
            defs.setdefault(w, (w.a[3], []))[1].append((facts, b))
            return
        sh = self.shape(w, b)
        if sh:
            for x, y in zip(*sh): self.collect(site, None, x, y, facts, defs)

    # ---- calls ----
    def is_opaque(self, g):
        fid = g.id
        if callable(self.opaque):
            r = self.opaque(g)
            if r is not None: return r
        elif fid in self.opaque or g.name in self.opaque: return True
        if self.inline_all: return False
        if g.kind == 'Closure' or g.kind == 'Promoted': return False
        if callable(self.inline):
            r = self.inline(g)
            if r is not None: return not r
        elif fid in self.inline or g.name in self.inline: return False
        if fid not in self.base: return False          # private, or new since the baseline
        if len(g.reachable_blocks()) <= 3 and not any(callee(t)[2] for b, t in g.calls()): return False
        return True
    def resolve(self, info, args, st):
        """local function a call goes to, or None"""
        path = info.get('rpath', info['path'])
        if info.get('local') and path in self.m.fns:
            g = self.m.fns[path]
            tr = info.get('trait')
            if tr and path == info.get('path') or ('trait_default' in g.raw and tr):
                # unresolved trait method: by the type of the receiver term
                h = self.by_receiver(tr, info['name'], args, st)
                if h is not None: return h
                if info.get('abstract'): return None
                if tr and not info.get('resolved'):
                    cands = self.cg.by_trait.get((tr, info['name']), [])
                    if cands: return None
            return g
        tr = info.get('trait')
        if tr and (info.get('local') or (tr, info['name']) in self.cg.by_trait):
            if info.get('rpath') is None or info.get('local'):
                return self.by_receiver(tr, info['name'], args, st)
        if path == '<T as std::convert::Into<U>>::into' or info['name'] == 'into' and tr == 'std::convert::Into':
            ra = info.get('ra') or info.get('a') or []
            src = self.m.ty(ra[0]) if ra and isinstance(ra[0], int) else None
            tgt = self.m.ty(ra[1]) if len(ra) > 1 and isinstance(ra[1], int) else None
            c = []
            for g in self.cg.by_trait.get(('std::convert::From', 'from'), []):
                gf = self.m.fns[g]
                if tgt is not None and gf.self_adt() == tgt.peel().adt_path():
                    ta = gf.raw.get('trait_args', [])
                    at = self.m.ty(ta[-1]) if ta and isinstance(ta[-1], int) else None
                    sc = self.tymatch(at, src)
                    if sc: c.append(gf)
            if len(c) == 1: return c[0]
        return None
    def tymatch(self, pat, t):
        if pat is None or t is None: return True
        if pat.k == 'param' or t.k == 'param' or t.k == 'alias' or pat.k == 'alias': return True
        if pat.k != t.k: return False
        if pat.k == 'adt':
            if pat.adt_path() != t.adt_path(): return False
            return all(self.tymatch(x, y) for x, y in zip(pat.args(), t.args()))
        if pat.k in ('ref', 'ptr', 'slice', 'array'): return self.tymatch(pat.inner(), t.inner())
        if pat.k == 'tuple':
            return len(pat.args()) == len(t.args()) and all(self.tymatch(x, y) for x, y in zip(pat.args(), t.args()))
        return pat.s == t.s
    def by_receiver(self, tr, name, args, st):
        cands = [self.m.fns[x] for x in self.cg.by_trait.get((tr, name), [])]
        if not args: return None
        v = self.deref(st, args[0])
        p = v.a[0] if v.k in ('adt', 'clo') else None
        if p is not None:
            c = [g for g in cands if g.self_adt() == p]
            if len(c) == 1: return c[0]
        return None
    def nested(self, fid):
        return self.stack.count(fid) >= self.recursion
    def call(self, st, info, args, site, span, f=None):
        path = info.get('rpath', info['path'])
        g = self.resolve(info, args, st)
        name = g.id if g is not None else path
        if g is not None and (info.get('trait') or '').split('::')[-1] in ('Fn', 'FnMut', 'FnOnce') and len(args) == 2:
            t = self.deref(st, args[1]) if args[1].k == 'ref' else args[1]   # a closure called directly gets its arguments as one tuple
            if t.k == 'tup' and g.nargs == 1 + len(t.a[0]): args = [args[0]] + list(t.a[0])
        if self.override:
            r = self.override(self, st, name, info, args)
            if r is not None: return r
        if self.watch and self.watch(name, info):
            self.events.append(Event(name=name, args=[self.value(st, a) for a in args], facts=st.f, span=span, fn=f.id if f else '',
                                     ctx=site, ret=None, gen=info))
        if g is not None:
            if info['name'] == 'clone' and len(args) == 1 and (info.get('trait') or '').endswith('Clone') and self.fieldwise_clone(g):
                return [(st, self.value(st, args[0]))]
            if self.nested(g.id) or len(self.stack) >= self.maxdepth or self.is_opaque(g):
                return self.opaque_call(st, g.id, args, g)
            derived = g.raw.get('derived')
            if derived and info['name'] in ('clone', 'eq', 'ne', 'default', 'fmt', 'partial_cmp'):
                r = self.models.derived(self, st, info['name'], args, g)
                if r is not None: return r
            return self.call_fn(st, g, args, site)
        r = self.models.external(self, st, info, path, args, site, span)
        if r is not None: return r
        return self.opaque_call(st, path, args, None)
    def fieldwise_clone(self, g):
        """derived, or hand written as Self { f: self.f.clone(), ... } (decided by analysing it once)"""
        if g.raw.get('derived'): return True
        r = self.clonefn.get(g.id)
        if r is None:
            self.clonefn[g.id] = True       # recursive types: optimistic
            a = g.self_adt()
            ad = next((x for x in self.m.adts if x['path'] == a), None)
            r = False
            if ad is not None and ad['kind'] == 'struct':
                names = [x['n'] for x in ad['v'][0]['f']]
                x = mk('arg', 'self')
                try:
                    outs = self.call_fn(St({}), g, [x], ('clone', g.id))
                    r = len(outs) == 1 and outs[0][1] is adt(a, ad['v'][0]['n'], names, [project(x, n) for n in names])
                except Budget: r = False
            self.clonefn[g.id] = r
        return r
    def opaque_call(self, st, name, args, g):
        vals = tuple(self.value(st, a) for a in args)
        self.opaque_calls[name] = self.opaque_calls.get(name, 0) + 1
        nm = self.models.canon(name, g)
        ret = mk('call', nm, vals)
        muts = []
        def scan(x):
            if isinstance(x, T) and self.hasref(x):
                if x.k == 'ref': muts.append(x)
                else:
                    for c in children(x): scan(c)
        for a in args: scan(a)
        if muts:
            st = st.copy()
            for i, r in enumerate(muts):
                self.put(st, r.a[0], r.a[1], mk('post', nm, i, vals))
        return [(st, ret)]
    def call_fn(self, st, g, args, site, plain=False):
        """inline: list of (state, return value)"""
        self.analysed.add(g.id)
        pure = not any(self.hasref(a) for a in args)
        if pure:
            cx = self.ctx(g.id, tuple(args))
            mkey = (g.id, tuple(args))
        else:
            n = self.stack.count(g.id)
            cx = self.ctx(g.id, site, n) if n else self.ctx(g.id, site)
        mark = len(self.events)
        base_f = st.f
        if pure and mkey in self.memo:
            outs, evs = self.memo[mkey]
            res = []
            for fs, r in outs:
                f2 = base_f | fs
                if not contradictory(f2): res.append((St(st.s, f2), r))
            for e in evs:
                f2 = base_f | e.facts
                if not contradictory(f2):
                    self.events.append(Event(name=e.name, args=e.args, facts=f2, span=e.span, fn=e.fn, ctx=e.ctx, ret=e.ret, gen=e.gen))
            return res
        inner = St({}, self.ground) if pure else st.copy()
        for i, a in enumerate(args): inner.s[(cx, i + 1)] = a
        self.stack.append(g.id)
        try:
            rets, backs, exits = self.run_region(g, cx, 0, [inner], None, None)
        finally:
            self.stack.pop()
        outs = []
        for s in rets:
            r = self.get(s, (cx, 0))
            s2 = {k: v for k, v in s.s.items() if k[0] != cx}
            outs.append((St(s2, s.f), r))
        outs = self.compact(outs)
        if pure:
            # heap effects of a pure call cannot be replayed: only memoize when there are none
            if all(not s.s for s, r in outs):
                self.memo[mkey] = ([(s.f, r) for s, r in outs], list(self.events[mark:]))
                evs = self.events[mark:]
                del self.events[mark:]
                self.memo[mkey] = (self.memo[mkey][0], evs)
                return self.call_fn(st, g, args, site)
            res = []
            for s, r in outs:
                f2 = base_f | s.f
                if not contradictory(f2):
                    ns = dict(st.s); ns.update(s.s)
                    res.append((St(ns, f2), r))
            for e in self.events[mark:]: e.facts = e.facts | base_f
            return res
        return outs
    def compact(self, outs):
        """equal results join; beyond the cap results are merged, by variant"""
        by = {}
        if self.exact:
            for s, r in outs: by.setdefault((frozenset(s.s.items()), r), []).append(s)
            outs = [(St(l[0].s, f), r) for (k, r), l in by.items() for f in (self.reduce_facts([s.f for s in l]) if len(l) > 1 else [l[0].f])]
            by = {}
        for s, r in () if self.exact else outs:
            k = (frozenset(s.s.items()), r)
            if k in by: by[k] = (St(s.s, by[k][0].f & s.f), r)
            else: by[k] = (s, r)
        outs = outs if self.exact else list(by.values())
        if len(outs) > self.cap:
            if self.exact: raise Budget()
            grp = {}
            for s, r in outs: grp.setdefault((r.a[0], r.a[1]) if r.k == 'adt' else r if r.k == 'c' else None, []).append((s, r))
            res = []
            for k, l in grp.items():
                if len(l) == 1: res.append(l[0]); continue
                key = ('ret', 0)
                ms = self.merge([St(dict(s.s, **{}) | {key: r}, s.f) for s, r in l])
                r = ms.s.pop(key, mk('phi', tuple(x[1] for x in l)))
                res.append((ms, r))
            outs = res
        return outs
    def call_value(self, st, fv, args, site):
        """call a closure or function value"""
        fv = self.deref(st, fv)
        if fv.k == 'clo':
            g = self.m.fns.get(fv.a[0])
            if g is not None and not self.nested(g.id) and len(self.stack) < self.maxdepth:
                return self.call_fn(st, g, [fv] + list(args), site)
        if fv.k == 'fn':
            info = self.models.FNREFS[fv.a[1]]
            if info.get('ctor'): pass
            return self.call(st, info, list(args), site, self.curspan)
        if fv.k == 'gphi':
            out = []
            for f, x in fv.a[0]:
                f2 = st.f | f
                if not contradictory(f2): out += self.call_value(St(st.s, f2), x, args, site)
            return out
        return self.opaque_call(st, '<dyn>', [fv] + list(args), None)
    def apply1(self, st, fv, args, site):
        """call and merge to a single value, ignoring effects: (value)"""
        outs = self.call_value(st, fv, args, site)
        if not outs: return None
        if len(outs) == 1 : return outs[0][1]
        common = frozenset.intersection(*[s.f for s, r in outs])
        return self.gmerge([(s.f - common, r) for s, r in outs])

    # ---- entry ----
    def run(self, g, args, facts=EMPTY, store=None):
        """analyse g from given argument terms; mutable reference arguments are given as ('mut', term)"""
        st = St(dict(store or {}), frozenset(facts))
        av = []
        for i, a in enumerate(args):
            if isinstance(a, tuple) and a[0] == 'mut':
                st.s[('r', i)] = a[1]; av.append(mk('ref', ('r', i), ()))
            else: av.append(a)
        self.stack = [g.id]
        self.analysed.add(g.id)
        cx = self.ctx('root', g.id)
        for i, a in enumerate(av): st.s[(cx, i + 1)] = a
        rets, backs, exits = self.run_region(g, cx, 0, [st], None, None)
        outs = []
        for s in rets:
            r = self.value(s, self.get(s, (cx, 0)))
            outs.append((St({k: v for k, v in s.s.items() if k[0] != cx}, s.f), r))
        return outs
    def auto(self, g, over=None, facts=EMPTY):
        """run with symbolic arguments named after the parameters"""
        args = []
        for i in range(1, g.nargs + 1):
            nm = g.arg_names.get(i, 'a%d' % i)
            if over and nm in over: v = over[nm]
            else: v = mk('arg', nm)
            ty = g.lty(i)
            if ty.k == 'ref' and ty.d.get('mut'): args.append(('mut', v))
            else: args.append(v)
        return self.run(g, args, facts)
