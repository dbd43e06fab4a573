"""C03 internal failures are never reported as success: error-discipline analysis of every Result value."""
from util import *

RES = 'std::result::Result'
# Result methods that keep a failure a failure (or turn it into a panic)
KEEP = {'map', 'map_err', 'and_then', 'and', 'context', 'with_context', 'branch', 'from_residual', 'unwrap', 'expect', 'as_ref', 'as_mut',
        'as_deref', 'as_deref_mut', 'cloned', 'copied', 'inspect', 'inspect_err', 'transpose', 'clone', 'into', 'from', 'flatten', 'fmt', 'eq', 'ne',
        'unwrap_err', 'expect_err', 'from_output', 'into_ok', 'map_err_into'}
LOSE = {'ok', 'unwrap_or', 'unwrap_or_else', 'unwrap_or_default', 'map_or', 'map_or_else', 'or', 'or_else', 'is_ok_and', 'is_err_and', 'err', 'iter',
        'into_iter', 'iter_mut', 'unwrap_unchecked'}
# iterator adapters/consumers that drop failed items when the item is a Result
ITEM_LOSE = {'flatten', 'flat_map', 'count', 'last', 'nth', 'filter', 'take_while', 'skip_while', 'partition', 'min_by', 'max_by'}

# (what produced the Result, how it is handled, where, reason): documented best-effort searches and infallible contexts.
# "where" is a source directory/file, so helpers and renamed functions stay covered.
ALLOWED = [
    (r'find_closest_(point|parameter)$', ('unwrap_or', 'map_or', 'is_ok_and', 'match'), r'^src/contains/', 'boundary pre-test of the containment query is best effort; parity decides'),
    (r'Executor<.*>::run$|Executor::<.*>::run$|argmin::core::Executor.*::run$', ('match', 'ok'), r'^src/intersects/', 'a solver failure drops one candidate of many'),
    (r'argmin::core::Problem.*::(cost|gradient|hessian|problem)$|::cost$', ('match', 'unwrap_or', 'map_or', 'is_ok_and', 'is_ok'), r'^src/(intersects|closest_parameter)/', 'line search step inside a solver iteration'),
]

def is_res(t): return t.k == 'adt' and t.adt_path() == RES

class Flow:
    """origins of the Result locals of one function"""
    def __init__(self, m, f):
        self.m, self.f = m, f
        self.defs = {}
        for b in f.reachable_blocks():
            for s in f.blocks[b]['s']:
                if s[0] == '=': self.defs.setdefault(s[1]['l'], []).append(('rv', s[1], s[2], b))
            t = f.blocks[b]['t']
            if t[0] == 'call': self.defs.setdefault(t[3]['l'], []).append(('call', t[3], t, b))
    def origins(self, l, seen=None):
        seen = seen if seen is not None else set()
        if l in seen: return set()
        seen.add(l)
        if 1 <= l <= self.f.nargs: return {'<param>'} | self._d(l, seen)
        return self._d(l, seen)
    def _d(self, l, seen):
        r = set()
        for k, pl, x, b in self.defs.get(l, ()):
            if k == 'call':
                path, name, loc, info = callee(x)
                a0 = x[2][0] if x[2] else None
                p = (a0.get('mv') or a0.get('cp')) if a0 else None
                pt = self.f.lty(p['l']).peel() if p else None
                if p and (is_res(pt) or 'Result<' in self.f.lty(p['l']).s) and (RES in path or name in KEEP or name in ('next', 'collect', 'collect_vec', 'into_iter', 'iter', 'rev')):
                    r |= self.origins(p['l'], seen)
                elif loc is None and name in ('Ok', 'Err'): r.add('<%s>' % name)
                else:
                    r.add(path if loc is None else loc)
            else:
                ops = []
                if x[0] == 'use': ops = [x[1]]
                elif x[0] == 'agg':
                    if x[1][0] == 'adt' and x[1][1] == RES: r.add('<' + x[1][2] + '>'); continue
                    ops = x[2]
                elif x[0] == 'ref': r |= self.origins(x[2]['l'], seen); continue
                for o in ops:
                    p = o.get('mv') or o.get('cp')
                    if p: r |= self.origins(p['l'], seen)
        return r

class C03:
    def __init__(self, ctx):
        self.ctx, self.m = ctx, ctx.m
        self.infallible = self._infallible()
        self.sites = 0
        self.allowed_used = set()

    def _infallible(self):
        """local functions that return Result but never produce an error"""
        inf = {f.id for f in self.m.fns.values() if is_res(f.lty(0))}
        changed = True
        while changed:
            changed = False
            for i in sorted(inf):
                if self._may_fail(self.m.fns[i], inf):
                    inf.discard(i); changed = True
        return inf

    def _may_fail(self, f, inf):
        for b in f.reachable_blocks():
            for s in f.blocks[b]['s']:
                if s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] == 'adt' and s[2][1][1] == RES and s[2][1][2] == 'Err': return True
            t = f.blocks[b]['t']
            if t[0] == 'call':
                path, name, loc, info = callee(t)
                dt = f.lty(t[3]['l'])
                if is_res(dt) and not t[3]['p']:
                    if name == 'from_residual': return True
                    if loc not in inf: return True
        return False

    def allow(self, f, how, orgs, ety=None):
        if orgs and all(o in self.infallible or o == '<Ok>' for o in orgs): return 'the step cannot fail'
        real = [o for o in orgs if o not in ('<Ok>', '<Err>')]
        if how in ('match', 'unused', 'ok', 'is_ok', 'is_err') and f.file.startswith('src/tessellation/') and ety and 'spade::' in ety:
            return 'a vertex the triangulation refuses is left out of the mesh'
        for i, (src, hows, where, why) in enumerate(ALLOWED):
            if how in hows and re.search(where, f.file if f.file.startswith('src') else f.file) and real and all(re.search(src, re.sub(r"<.*>", lambda x: x.group(0), o)) for o in real):
                self.allowed_used.add(i)
                return why
        return None

    def report(self, f, how, orgs, sp, msg, ety=None):
        why = self.allow(f, how, orgs, ety)
        top = f
        root = re.sub(r'(::\{closure#\d+\})+$', '', f.id)
        inst = '%s: %s of %s' % (short(root), how, ','.join(sorted(short(o) for o in orgs)) or '?')
        self.ctx.ob('discipline', inst, why is not None, sp, msg)

    def fn(self, f):
        fl = Flow(self.m, f)
        used = set()
        def use(o):
            p = o.get('mv') or o.get('cp')
            if p: used.add(p['l'])
        for b in f.reachable_blocks():
            bb = f.blocks[b]
            for s in bb['s']:
                if s[0] != '=': continue
                rv = s[2]
                if s[1]['p']: used.add(s[1]['l'])
                if rv[0] == 'use': use(rv[1])
                elif rv[0] == 'cast': use(rv[2])
                elif rv[0] == 'bin': use(rv[2]); use(rv[3])
                elif rv[0] in ('un',): use(rv[2])
                elif rv[0] == 'agg':
                    for o in rv[2]: use(o)
                elif rv[0] in ('ref', 'raw'): used.add(rv[2]['l'])
                elif rv[0] == 'discr':
                    used.add(rv[1]['l'])
                    self.discr(f, fl, b, s, rv[1])
            t = bb['t']
            if t[0] == 'call':
                for o in t[2]: use(o)
                self.call(f, fl, b, t)
            elif t[0] == 'switch': use(t[1])
        # results that nobody looks at
        for b, t in f.calls():
            d = t[3]
            if not d['p'] and is_res(f.lty(d['l'])) and d['l'] != 0:
                self.sites += 1
                if d['l'] not in used:
                    path, name, loc, info = callee(t)
                    self.report(f, 'unused', {loc or path}, f.blocks[b]['sp'], 'the result of a fallible call is discarded', f.lty(d['l']).s)
        for b, x in fn_operands(f):
            rp = x.get('rpath', x['path'])
            if rp.startswith(RES) and x['name'] in LOSE | {'is_ok', 'is_err'}:
                self.report(f, x['name'], {'<items>'}, f.blocks[b]['sp'], 'failures are thrown away by passing Result::%s' % x['name'])

    def call(self, f, fl, b, t):
        path, name, loc, info = callee(t)
        sp = f.blocks[b]['sp']
        if loc is None and t[2]:
            p = t[2][0].get('mv') or t[2][0].get('cp')
            if p and not [e for e in p['p'] if e[0] != '*'] and is_res(f.lty(p['l']).peel()):
                if name in LOSE:
                    self.report(f, name, fl.origins(p['l']), sp, 'a failure is turned into a value by Result::%s' % name)
                elif name in ('is_ok', 'is_err'):
                    self.boolean(f, fl, b, t, p, name)
        it = info.get('item')
        if isinstance(it, int) and is_res(self.m.ty(it).peel()):
            if name in ITEM_LOSE:
                self.report(f, name, {'<items>'}, sp, 'failed items are dropped by %s' % name)
            if name == 'collect' or name == 'from_iter' or name == 'extend':
                dt = f.lty(t[3]['l'])
                pass

    def boolean(self, f, fl, b, t, p, name):
        d = t[3]['l']
        for b2 in f.reachable_blocks():
            tt = f.blocks[b2]['t']
            if tt[0] == 'switch':
                q = tt[1].get('mv') or tt[1].get('cp')
                if q and q['l'] == d and not q['p']:
                    zero = [x[1] for x in tt[2] if str(x[0]) == '0']
                    err = (tt[3] if name == 'is_err' else (zero[0] if zero else None))
                    if err is not None:
                        self.arm(f, fl, err, fl.origins(p['l']), f.blocks[b]['sp'])
                    return
        self.report(f, name, fl.origins(p['l']), f.blocks[b]['sp'], 'only the success flag of a fallible step is used')

    def discr(self, f, fl, b, s, pl):
        # is the place itself a Result?
        ty = self.place_ty(f, pl)
        if ty is None or not is_res(ty): return
        orgs = fl.origins(pl['l'])
        d = s[1]['l']
        for b2 in f.reachable_blocks():
            tt = f.blocks[b2]['t']
            if tt[0] == 'switch':
                q = tt[1].get('mv') or tt[1].get('cp')
                if q and q['l'] == d and not q['p']:
                    one = [x[1] for x in tt[2] if str(x[0]) == '1']
                    err = one[0] if one else tt[3]
                    if f._dead(err): continue
                    self.arm(f, fl, err, orgs, s[3], ty.s)

    def place_ty(self, f, pl):
        t = f.lty(pl['l'])
        for e in pl['p']:
            if e[0] == '*': t = t.inner()
            elif e[0] == 'f':
                if t is None: return None
                if t.k == 'tuple' or t.k == 'tup':
                    a = t.args()
                    i = e[1]
                    t = a[i] if i < len(a) else None
                else: return None
            else: return None
            if t is None: return None
        return t

    def arm(self, f, fl, start, orgs, sp, ety=None):
        """from the failure arm every path must end by returning a failure (or diverge)"""
        res = is_res(f.lty(0))
        bad = None
        if not res:
            bad = 'failure arm of a match in a function that cannot report it'
            # diverging arms (panic) are fine
            seen, st, returns = set(), [start], False
            while st:
                x = st.pop()
                if x in seen: continue
                seen.add(x)
                if f.blocks[x]['t'][0] == 'return': returns = True
                st += f.succ(x)
            if not returns: bad = None
        else:
            seen, st = set(), [(start, False)]
            while st:
                x, has = st.pop()
                if (x, has) in seen: continue
                seen.add((x, has))
                for s in f.blocks[x]['s']:
                    if s[0] == '=' and s[1]['l'] == 0 and not s[1]['p']:
                        rv = s[2]
                        if rv[0] == 'agg' and rv[1][0] == 'adt': has = rv[1][2] == 'Err'
                        elif rv[0] == 'use':
                            p = rv[1].get('mv') or rv[1].get('cp')
                            has = bool(p) and self.fails(f, fl, p['l'], orgs)
                t = f.blocks[x]['t']
                if t[0] == 'call' and t[3]['l'] == 0 and not t[3]['p']:
                    nm = callee(t)[1]
                    has = nm in ('from_residual',) or (nm in KEEP and nm not in ('from_output',))
                if t[0] == 'return':
                    if not has: bad = 'the failure arm of a match goes on to a success'
                    continue
                for y in f.succ(x): st.append((y, has))
        if bad:
            self.report(f, 'match', orgs, sp, bad, ety)
        else:
            root = re.sub(r'(::\{closure#\d+\})+$', '', f.id)
            self.ctx.ob('discipline', '%s: match of %s' % (short(root), ','.join(sorted(short(o) for o in orgs))))

    def fails(self, f, fl, l, orgs):
        """returning this local on the failure arm returns a failure: it is the tested Result or only built as Err"""
        o = fl.origins(l)
        return o == {'<Err>'} or (bool(o & orgs) and '<Ok>' not in o) or o <= orgs | {'<Err>'}

def check(ctx):
    m = ctx.m
    ctx.rule('discipline', 'every Result value of the crate is consumed by `?`, a return, a failure-preserving combinator, a collect into Result, or a '
             'match whose failure arm only returns a failure or diverges; turning a failure into a value (ok, unwrap_or*, map_or, is_ok, ...), '
             'discarding a Result, flattening an iterator of Results, or continuing from the failure arm is a violation except for the listed '
             'best-effort searches and for steps that cannot fail')
    c = C03(ctx)
    n = 0
    for f in sorted(m.fns.values(), key=lambda f: f.id):
        if not is_src(f) or f.raw.get('derived'): continue
        n += 1
        v0, s0 = len(ctx.viol), c.sites
        c.fn(f)
        if len(ctx.viol) == v0 and c.sites > s0:
            ctx.ob('discipline', '%s: %d fallible calls consumed' % (short(f.id), c.sites - s0))
    ctx.count('functions and closures', n)
    ctx.floor('fallible calls', c.sites, 150)
    ctx.count('functions that return Result but cannot fail', len(c.infallible))
    ctx.count('best-effort idioms in use', len(c.allowed_used))
    for s, h, w, why in ALLOWED: ctx.assumptions.append('allowed: %s of %s in %s: %s' % ('/'.join(h), s, w, why))
