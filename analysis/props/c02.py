"""C02 failure atomicity: forward may-dirty dataflow, context-sensitive over local callees."""
from util import *

RES_KEEP = {'map_err', 'map', 'and_then', 'context', 'with_context', 'branch', 'inspect', 'inspect_err', 'as_ref', 'into'}

class St:
    """dirty: the receiver may have been changed; conds: locals whose Ok means it was changed"""
    __slots__ = ('dirty', 'conds', 'prov', 'snap', 'tags')
    def __init__(s, dirty=False, conds=frozenset(), prov=frozenset(), snap=frozenset(), tags=frozenset()):
        s.dirty, s.conds, s.prov, s.snap, s.tags = dirty, conds, prov, snap, tags
    def join(a, b):
        return St(a.dirty or b.dirty, a.conds | b.conds, a.prov | b.prov, a.snap & b.snap, a.tags & b.tags)
    def key(s): return (s.dirty, s.conds, s.prov, s.snap, s.tags)
    def copy(s, **k):
        d = dict(dirty=s.dirty, conds=s.conds, prov=s.prov, snap=s.snap, tags=s.tags); d.update(k)
        return St(**d)

def is_result(ty): return ty.k == 'adt' and ty.adt_path() == 'std::result::Result'
def is_cf(ty): return ty.k == 'adt' and ty.adt_path() == 'std::ops::ControlFlow'

class Atomic:
    def __init__(self, ctx):
        self.ctx, self.m = ctx, ctx.m
        self.memo = {}
        self.stack = []
        self.nexits = 0
        self.canfail = set()
        add = [f for f in self.m.method('NurbsCurve', 'try_add_knot')]
        self.add_knot = {f.id for f in add}

    def mutty(self, ty):
        """type that can carry a mutable borrow"""
        return '&mut' in ty.s or 'Mut<' in ty.s or '{closure' in ty.s or re.search(r"&'\w+ mut ", ty.s) is not None

    def summary(self, f, params, tags):
        """params: indices of params that alias the receiver mutably; -> (mutates, err_dirty, [sites])"""
        k = (f.id, params, tags)
        if k in self.memo: return self.memo[k]
        if f.id in self.stack: return (True, True, [], True)
        self.stack.append(f.id)
        self.canfail.discard(f.id)
        r = self.run(f, params, tags)
        self.stack.pop()
        self.memo[k] = r
        return r

    def run(self, f, params, tags):
        init = St(prov=frozenset(params), tags=frozenset(tags))
        states = {0: init}
        work = [0]
        errs = {}
        mut = False
        # boolean/discriminant locals that test a conditional local: local -> (cond local, value meaning Err)
        tests = {}
        for b in f.reachable_blocks():
            for s in f.blocks[b]['s']:
                if s[0] == '=' and s[2][0] == 'discr' and not s[2][1]['p']:
                    tests[s[1]['l']] = (s[2][1]['l'], '1')
            t = f.blocks[b]['t']
            if t[0] == 'call':
                nm = callee(t)[1]
                if nm in ('is_err', 'is_ok') and t[2]:
                    o = t[2][0]
                    p = o.get('mv') or o.get('cp')
                    if p:
                        # _r = &res; is_err(_r)
                        base = self._refbase(f, p['l'])
                        tests[t[3]['l']] = (base, '1' if nm == 'is_err' else '0')
        while work:
            b = work.pop()
            st = states[b]
            st = self.block(f, b, st, errs)
            if st.dirty or st.conds: mut = True
            t = f.blocks[b]['t']
            outs = []
            if t[0] == 'switch':
                o = t[1]; p = o.get('mv') or o.get('cp')
                tst = tests.get(p['l']) if p and not p['p'] else None
                if tst and tst[0] in st.conds:
                    vals = [v for v, _ in t[2]]
                    for v, tgt in t[2]:
                        outs.append((tgt, self.resolve(st, tst[0], str(v) == tst[1])))
                    other_err = str(tst[1]) not in [str(v) for v in vals]
                    outs.append((t[3], self.resolve(st, tst[0], other_err)))
                else:
                    outs = [(x, st) for x in f.succ(b)]
            else:
                outs = [(x, st) for x in f.succ(b)]
            for x, s2 in outs:
                if x not in f.reachable_blocks(): continue
                if x not in states:
                    states[x] = s2; work.append(x)
                else:
                    j = states[x].join(s2)
                    if j.key() != states[x].key():
                        states[x] = j; work.append(x)
        return (mut, bool(errs), sorted(errs.items()), f.id in self.canfail)

    def _refbase(self, f, l):
        for b in f.reachable_blocks():
            for s in f.blocks[b]['s']:
                if s[0] == '=' and s[1]['l'] == l and not s[1]['p'] and s[2][0] == 'ref' and not s[2][2]['p']:
                    return s[2][2]['l']
        return l

    def resolve(self, st, l, is_err):
        c = st.conds - {l}
        return st.copy(conds=c, dirty=st.dirty or not is_err)

    def prov_of_place(self, st, p):
        return p['l'] in st.prov

    def block(self, f, b, st, errs):
        bb = f.blocks[b]
        for s in bb['s']:
            if s[0] != '=': continue
            st = self.assign(f, b, st, s, errs)
        t = bb['t']
        if t[0] == 'call':
            st = self.call(f, b, st, t, errs)
        elif t[0] == 'drop':
            pass
        return st

    def opl(self, o):
        p = o.get('mv') or o.get('cp')
        return p

    def assign(self, f, b, st, s, errs):
        pl, rv = s[1], s[2]
        l = pl['l']
        deref_write = l in st.prov and any(e[0] == '*' for e in pl['p'])
        if deref_write:
            # whole restore from a snapshot taken while clean
            if rv[0] == 'use' and pl['p'] == [['*']] and (self.opl(rv[1]) or {}).get('l') in st.snap:
                return st.copy(dirty=False, conds=frozenset())
            return st.copy(dirty=True)
        if pl['p']:
            # store into a local aggregate: it may carry the borrow
            srcs = self.rv_locals(rv)
            if any(x in st.prov for x in srcs) and self.mutty(f.lty(l)):
                return st.copy(prov=st.prov | {l})
            if l == 0: self.ret(f, b, st, rv, s[3], errs)
            return st
        prov, snap, tags, conds = st.prov - {l}, st.snap - {l}, {x for x in st.tags if x[0] != l}, st.conds
        srcs = self.rv_locals(rv)
        ty = f.lty(l)
        if any(x in st.prov for x in srcs):
            if rv[0] == 'ref' and rv[1] == 'mut' or rv[0] in ('use', 'cast', 'agg') and self.mutty(ty):
                prov = prov | {l}
        if rv[0] == 'use':
            p = self.opl(rv[1])
            if p and not p['p']:
                if p['l'] in st.snap: snap = snap | {l}
                if p['l'] in conds: conds = (conds - {p['l']}) | {l}
                for x in st.tags:
                    if x[0] == p['l']: tags.add((l, x[1]))
        st2 = St(st.dirty, conds, frozenset(prov), frozenset(snap), frozenset(tags))
        if l == 0 and is_result(ty): self.ret(f, b, st2, rv, s[3], errs)
        return st2

    def rv_locals(self, rv):
        r = []
        k = rv[0]
        if k == 'use': ops = [rv[1]]
        elif k == 'cast': ops = [rv[2]]
        elif k == 'agg': ops = rv[2]
        elif k in ('ref', 'raw'):
            return [rv[2]['l']]
        else: return []
        for o in ops:
            p = self.opl(o)
            if p: r.append(p['l'])
        return r

    def ret(self, f, b, st, rv, sp, errs):
        if rv[0] == 'agg' and rv[1][0] == 'adt' and rv[1][2] == 'Err':
            self.nexits += 1; self.canfail.add(f.id)
            if st.dirty: errs[(b, sp)] = 'an error is returned after the receiver may have been changed'
        elif rv[0] == 'use':
            p = self.opl(rv[1])
            if p:
                self.nexits += 1
                if not self._ok_only(f, b, p) and (0, 'infallible') not in st.tags: self.canfail.add(f.id)
                if st.dirty and (0, 'infallible') not in st.tags and not self._ok_only(f, b, p): errs[(b, sp)] = 'a result that may be an error is returned after the receiver may have been changed'

    def _ok_only(self, f, b, p):
        """every definition of the local is an Ok aggregate"""
        ds = []
        for bb in f.reachable_blocks():
            for s in f.blocks[bb]['s']:
                if s[0] == '=' and s[1]['l'] == p['l']: ds.append(s[2])
            t = f.blocks[bb]['t']
            if t[0] == 'call' and t[3]['l'] == p['l']: return False
        return bool(ds) and all(d[0] == 'agg' and d[1][0] == 'adt' and d[1][2] == 'Ok' for d in ds)

    def call(self, f, b, st, t, errs):
        path, name, loc, info = callee(t)
        args, dest = t[2], t[3]
        dl = dest['l']
        dty = f.lty(dl) if not dest['p'] else None
        al = [self.opl(a) for a in args]
        hot = tuple(i + 1 for i, p in enumerate(al) if p and p['l'] in st.prov and (self.mutty(f.lty(p['l'])) or f.lty(p['l']).k != 'ref'))
        tags = set()
        for i, p in enumerate(al):
            if p and not p['p']:
                for x in st.tags:
                    if x[0] == p['l']: tags.add((i + 1, x[1]))
        sp = f.blocks[b]['sp']
        dirty, conds, prov = st.dirty, st.conds, st.prov
        ntags = {x for x in st.tags if x[0] != dl}
        snap = st.snap - {dl}
        if not dest['p']: prov = prov - {dl}
        err_dirty_before = dirty
        if hot:
            g = self.m.fns.get(loc) if loc else None
            if g is not None:
                mut, ed, sites, cf = self.summary(g, hot, frozenset(tags))
                if not cf or g.id in self.add_knot and any(x == (2, 'endknot') for x in tags):
                    # the argument is the first or last knot of the receiver: in range, so this call cannot fail
                    if mut: dirty = True
                    if dty is not None and is_result(dty):
                        conds = conds - {dl}
                        ntags.add((dl, 'infallible'))
                elif mut:
                    if dty is not None and is_result(dty) and not ed:
                        conds = conds | {dl}
                    elif dty is not None and self.mutty(dty):
                        prov = prov | {dl}
                        dirty = True if mut else dirty
                    else:
                        dirty = True
                if dty is not None and self.mutty(dty): prov = prov | {dl}
            else:
                if dty is not None and self.mutty(dty) :
                    prov = prov | {dl}
                    if any(self._closure_arg(f, p) for i, p in enumerate(al) if p and (i + 1) in hot): dirty = dirty
                elif name in ('len', 'is_empty', 'clone', 'eq', 'ne', 'first', 'last', 'get', 'to_vec', 'as_slice', 'deref', 'index', 'as_ref', 'size_hint', 'capacity'):
                    pass
                else:
                    dirty = True
        # value tags
        if name == 'clone' and al and al[0] and not dirty:
            # snapshot of the receiver: clone(&*self)
            base = self._refsrc(f, al[0]['l'])
            if base is not None and base in st.prov: snap = snap | {dl}
        if name in ('first', 'last') and info.get('local') and 'KnotVector' in path:
            ntags.add((dl, 'endknot'))
        if name in RES_KEEP or name in ('from_output',):
            for p in al[:1]:
                if p and p['l'] in conds:
                    conds = (conds - {p['l']}) | {dl}
                if p:
                    for x in st.tags:
                        if x == (p['l'], 'infallible'): ntags.add((dl, 'infallible'))
        st2 = St(dirty, conds, frozenset(prov), frozenset(snap), frozenset(ntags))
        if dl == 0 and not dest['p'] and is_result(f.lty(0)):
            self.nexits += 1
            if name == 'from_residual':
                # the residual is an Err: conditions tied to it were resolved by the switch on its ControlFlow
                inf = self._infallible_residual(f, st, al)
                if not inf: self.canfail.add(f.id)
                if st2.dirty and not inf: errs[(b, sp)] = 'an error is propagated after the receiver may have been changed'
            elif (dl, 'infallible') in ntags: pass
            elif dl in conds:
                self.canfail.add(f.id)
                if err_dirty_before: errs[(b, sp)] = 'a fallible call is returned after the receiver may have been changed'
            elif st2.dirty:
                self.canfail.add(f.id)
                errs[(b, sp)] = 'a fallible call is returned after the receiver may have been changed'
            else: self.canfail.add(f.id)
        return st2

    def _infallible_residual(self, f, st, al):
        # residual = (cf as Break).0 ; cf = branch(r)
        p = al[0] if al else None
        if not p: return False
        l = p['l']
        seen = set()
        while l not in seen:
            seen.add(l)
            if (l, 'infallible') in st.tags: return True
            for b in f.reachable_blocks():
                for s in f.blocks[b]['s']:
                    if s[0] == '=' and s[1]['l'] == l and not s[1]['p'] and s[2][0] == 'use' and self.opl(s[2][1]):
                        l = self.opl(s[2][1])['l']; break
        return False

    def _closure_arg(self, f, p):
        return '{closure' in f.lty(p['l']).s

    def _refsrc(self, f, l):
        for b in f.reachable_blocks():
            for s in f.blocks[b]['s']:
                if s[0] == '=' and s[1]['l'] == l and not s[1]['p'] and s[2][0] == 'ref' and s[2][2]['p'] == [['*']]:
                    return s[2][2]['l']
        return l if f.lty(l).k == 'ref' else None

def check(ctx):
    m = ctx.m
    ctx.rule('atomic', 'forward may-dirty analysis of every exported fallible operation that borrows its receiver mutably: a write through the '
             'receiver (directly, through any derived &mut, or inside a local callee) makes it dirty; no error exit (Err value, `?`, returned '
             'fallible call) is reachable while dirty. A failed call to a callee that is itself atomic leaves it clean; adding the first or last '
             'knot again cannot fail')
    an = Atomic(ctx)
    tgt = []
    for f in m.fns.values():
        if f.kind == 'Closure' or not f.exported or f.trait or f.nargs == 0: continue
        t1 = f.lty(1)
        if t1.k != 'ref' or not f.locals or not t1.s.startswith('&') or 'mut ' not in t1.s.split('<')[0]: continue
        if t1.inner().adt() is None or not t1.inner().adt()['local']: continue
        if not is_result(f.lty(0)): continue
        tgt.append(f)
    names = {(f.self_adt().split('::')[-1], f.name) for f in tgt if f.self_adt()}
    for a in [('NurbsCurve', 'try_add_knot'), ('NurbsCurve', 'try_remove_knot'), ('NurbsCurve', 'try_refine_knot'),
              ('NurbsCurve', 'try_clamp'), ('NurbsSurface', 'try_refine_knot')]:
        if a not in names: ctx.anchor_missing('%s::%s(&mut self) -> Result' % a)
    for f in sorted(tgt, key=lambda f: f.id):
        mut, ed, sites, _ = an.summary(f, (1,), frozenset())
        nm = '%s::%s' % (f.self_adt().split('::')[-1], f.name)
        if mut is False:
            ctx.violation('nomut|' + nm, f.span, 'the operation no longer changes its receiver on any path (rule lost its subject)')
        if not sites:
            ctx.ob('atomic', nm)
        for (b, sp), why in sites:
            ctx.ob('atomic', nm, False, sp, why)
    ctx.count('operations', len(tgt)); ctx.floor('error exits examined', an.nexits, 12)
    ctx.assumptions.append('panics (index out of bounds, unwrap) are not error returns; external callees mutate only through the &mut they are given')
