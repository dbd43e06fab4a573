"""C07 crossing booleans: the clipping run over bounded lists of abstract crossings (2 and 4), for every order of the crossings
along both outlines, every containment of first points and every operation, compared with the entry/exit walk of the statement."""
from vf import *
from props.c06 import who, contains_model, OPS, S, C
import itertools

def crossing(m, path, x, y, i):
    """abstract crossing value of the type the search returns: a side on x, b side on y"""
    ad = m.adt_by_path.get(path)
    if ad is None: return None
    names = [q['n'] for q in ad['v'][0]['f']]
    if sorted(names) != ['a', 'b']: return None
    comp = path.endswith('CompoundCurveIntersection')
    vals = []
    for n, s in sorted(zip(('a', 'b'), (x, y))):
        p, t = arg('P%s%d' % (s, i)), arg('T%s%d' % (s, i))
        vals.append(tup(arg('curve_' + s), p, t) if comp else tup(p, t))
    return adt(path, ad['v'][0]['n'], names, [vals[0] if n == 'a' else vals[1] for n in names])

def walk(op_, pa, pb, a_in_b, b_in_a):
    """expected regions: lists of (outline, from, to) with crossing numbers"""
    order = {S: list(pa), C: list(pb)}
    st = {}
    for w, flag in ((S, not a_in_b), (C, not b_in_a)):
        inv = op_ == 'Union' or op_ == 'Difference' and w == S
        for x in order[w]:
            st[(w, x)] = flag != inv        # True: entering
            flag = not flag
    seen, out = set(), []
    for x in order[S]:
        if (S, x) in seen: continue
        cur, pieces = (S, x), []
        while cur not in seen:
            seen.add(cur)
            w, i = cur
            o = order[w]
            j = o[(o.index(i) + (1 if st[cur] else -1)) % len(o)]
            seen.add((w, j))
            pieces.append((w, i, j) if st[cur] else (w, j, i))
            cur = (C if w == S else S, j)
        out.append(pieces)
    return out

# touches (None) and tangencies (how straight)
TOUCHES = [(3, (0, 1, 2), (2, 0, 1), {1: None}), (3, (0, 1, 2), (0, 1, 2), {0: .9999}), (4, (1, 0, 3, 2), (0, 1, 2, 3), {0: None, 3: .999}), (4, (0, 1, 2, 3), (3, 2, 1, 0), {1: .998, 2: .9995, 3: .99}), (2, (0, 1), (1, 0), {1: .9995}), (6, (0, 1, 2, 3, 4, 5), (2, 3, 4, 5, 0, 1), {2: None, 5: None})]
def kept(n, deg):
    """numbers of the crossings the walk turns at; None where there is an odd number of them"""
    plain = [i for i in range(n) if i not in deg]
    if len(plain) % 2 == 0: return plain
    tang = {i: x for i, x in deg.items() if x is not None}
    return sorted(plain + [max(tang, key=tang.get)]) if tang else None

def parse(t, names):
    """regions of an Ok outcome as pieces, or None"""
    rg = fld(t, 'regions')
    if rg.k != 'arr': return None
    out = []
    for r in rg.a[0]:
        if r.k != 'adt' or fld(r, 'interiors') is not arr(()): return None
        ex = fld(r, 'exterior')
        if ex.k == 'adt' and ex.a[2] == ('spans',): ex = fld(ex, 'spans')
        elif ex.k == 'call' and len(ex.a[1]) == 1: ex = ex.a[1][0]
        else: return None
        ps = []
        for p in (ex.a[0] if ex.k == 'cat' else (ex,)):
            c = [x for x in find(p, lambda x: x.k == 'vf' and x.a[1] == 'Ok' and x.a[0].k == 'call' and x.a[0].a[0].split('::')[-1] == 'try_trim_range')]
            if len(c) != 1: return None
            a = c[0].a[0].a[1]
            w = who(a[0], names)
            if w is None or a[1].k != 'tup': return None
            ts = []
            for q in a[1].a[0]:
                if q.k != 'arg' or not q.a[0].startswith('T'): return None
                ts.append(q.a[0][1:])
            ps.append((w, tuple(ts)))
        out.append(ps)
    return out
def norm(regs):
    out = []
    for ps in regs:
        out.append(min(tuple(ps[i:] + ps[:i]) for i in range(len(ps))) if ps else ())
    return sorted(out)

def check(ctx):
    m = ctx.m
    ctx.rule('walk', 'for each order of the crossings along the two outlines, containment of the first points and operation: the regions are made of exactly the pieces of the entry/exit walk, each trimmed from the outline its crossings belong to, from the entering to the leaving parameter')
    ctx.rule('errors', 'a failed trim of a piece fails the operation; without failures the operation succeeds')
    ctx.rule('order', 'the crossings are ordered along each outline by the parameters on that outline')
    ctx.rule('odd', 'an odd number of crossings without a degenerate one to complete it is an error')
    ctx.assumptions.append('lists of 2 and 4 crossings (all orders for 2; rotations, reversal and interleavings for 4), none degenerate; contains, first_point, try_trim_range and CompoundCurve::new are not looked into')
    impls = [f for f in m.fns.values() if f.name == 'boolean' and (f.trait or '').endswith('Boolean') and f.kind != 'Closure' and f.self_adt() and not f.self_adt().endswith('Region') and not f.raw.get('trait_default')]
    ctx.floor('boolean impls without regions', len(impls), 4)
    deep = os.environ.get('VERIF_TIER') == 'thorough'
    four = list(itertools.permutations(range(4)))
    some4 = four if deep else [(0, 1, 2, 3), (3, 2, 1, 0), (1, 0, 3, 2), (0, 3, 2, 1), (2, 0, 3, 1), (0, 2, 1, 3)]
    items = []
    for f in sorted(impls, key=lambda x: x.id):
        sn = short(f.id)
        cfgs = [(2, pa, pb) for pa in ((0, 1), (1, 0)) for pb in ((0, 1), (1, 0))] + [(4, pa, pb) for pa in ((0, 1, 2, 3), (2, 3, 0, 1) if not deep else (1, 3, 0, 2)) for pb in some4] + [(1, (0,), (0,)), (3, (0, 1, 2), (2, 0, 1))]
        # crossings and, by number, which of them only touch
        cfgs = [c + ({},) for c in cfgs] + [(6, tuple(range(6)), pb, {}) for pb in ((0, 1, 2, 3, 4, 5), (3, 2, 1, 0, 5, 4))] + TOUCHES
        for n, pa, pb, deg in cfgs:
            keep = kept(n, deg)
            for opn in (OPS if keep is not None else OPS[:1]):
                inst = '%s %s self order %s, other order %s%s' % (sn, opn, pa, pb, ''.join(', %d is a %s' % (i, 'touch' if k is None else 'tangency') for i, k in sorted(deg.items())))
                for sc in (True, False):
                    for cs in (True, False):
                        items.append((f.id, opn, n, pa, pb, deg, inst + ', other in self: %s, self in other: %s' % (sc, cs), sc, cs))
    runs = len(items)
    decided = sum(pmap(ctx, one, items))
    ctx.count('runs', runs)
    ctx.count('walks decided', decided)

def one(ctx, fid, opn, n, pa, pb, deg, inst, sc, cs):
    m = ctx.m
    keep = kept(n, deg)
    odd = keep is None
    f = m.fns[fid]
    pn = [f.arg_names.get(i, 'a%d' % i) for i in range(1, f.nargs + 1)]
    names = {arg(pn[0]): S, arg(pn[2]): C}
    def inl(g):
        return True if g.span.startswith(('src/boolean/', 'src/intersects/', 'src/region/mod')) else None
    def opq(g):
        return True if g.name in ('contains', 'first_point', 'try_trim_range') or g.name == 'new' and (g.self_adt() or '').endswith('CompoundCurve') else None
    I = engine(ctx, inline=inl, opaque=opq)
    I.unroll = 40
    I.budget, I.t_end = 40000, time.time() + 20
    bad, asked = [], []
    cm = contains_model({(S, C): sc, (C, S): cs}, names, asked)
    def over(I, st, name, info, args):
        g = m.fns.get(name)
        if info['name'] == 'find_intersections':
            w = [who(I.value(st, a), names) for a in args[:2]]
            t = g.lty(0) if g is not None else None
            while t is not None and not (t.adt_path() or '').endswith('Intersection'):
                t = t.args()[0] if t.args() else None
            xs = [crossing(m, t.adt_path(), w[0], w[1], i) for i in range(n)] if t is not None and None not in w else [None]
            if None in xs: bad.append(1); return None
            return [(st, ok(arr(xs)))]
        if g is not None and (g.lty(0).adt_path() or '').endswith('Degeneracy') and g.kind != 'Closure':
            if not deg: return [(st, adt(g.lty(0).adt_path(), 'None', (), ()))]
            ix = {x.a[0][1:].replace(S, '').replace(C, '') for x in find(I.value(st, args[0]), lambda x: x.k == 'arg' and x.a[0].startswith(('T' + S, 'T' + C)))} if args else set()
            if len(ix) != 1: raise Budget('degeneracy of an unknown crossing')
            i = int(ix.pop())
            if i not in deg: return [(st, adt(g.lty(0).adt_path(), 'None', (), ()))]
            return [(st, adt(g.lty(0).adt_path(), 'LineIntersection', (), ()) if deg[i] is None else adt(g.lty(0).adt_path(), 'Angle', ('0',), (cf(deg[i]),)))]
    I.override = lambda *a: over(*a) or cm(*a)
    fs = set()
    for nm, perm in ((S, pa), (C, pb)):
        for i in range(n):
            for j in range(i + 1, n): fs.add((op('Lt', arg('T%s%d' % (nm, perm[i])), arg('T%s%d' % (nm, perm[j]))), True))
    I.ground = frozenset(fs)
    def on_sort(c):
        ts = {x.a[0].split(w)[0] + w for x in find(c, lambda x: x.k == 'arg' and x.a[0][0] == 'T') for w in (S, C) if x.a[0].startswith('T' + w)}
        if len(ts) == 2: ctx.ob('order', inst, False, f.span, 'the order of the crossings along one outline compares parameters of both outlines: %s' % show(c))
        raise Budget('undecided order: ' + show(c))
    I.on_sort = on_sort
    try: outs = I.auto(f, {pn[1]: unit_adt(m, 'BooleanOperation', opn)}, I.ground)
    except Budget as e: ctx.skip('walk', inst, 'budget: %s' % e); return 0
    if bad: ctx.skip('walk', inst, 'crossings not recognised'); return 0
    if not odd and len(set(asked)) < 2: ctx.skip('walk', inst, 'containment queries not recognised'); return 0
    got_any = 0
    for s, r in outs:
        for g, t in deep_alts(r, s.f):
            if odd:
                if is_adt(t, RES, 'Ok'): ctx.ob('odd', inst, False, f.span, 'an odd number of crossings is accepted')
                elif is_adt(t, RES, 'Err'): ctx.ob('odd', inst)
                continue
            trims = [(c, p) for c, p in g if c.k == 'is' and c.a[0].k == 'call' and c.a[0].a[0].split('::')[-1] == 'try_trim_range']
            empty = any(p and c.k == 'op' and c.a[0] == 'Eq' and find(c, lambda x: x.k == 'call' and x.a[0] == 'len') for c, p in g)
            key = inst
            if any(not p for c, p in trims):
                if is_adt(t, RES, 'Ok'): ctx.ob('errors', key, False, f.span, 'a piece that could not be trimmed is left out silently')
                elif is_adt(t, RES, 'Err'): ctx.ob('errors', key)
                continue
            if empty: continue
            if is_adt(t, RES, 'Err'):
                known = set(c for c, p in trims)
                rest = [c for c, p in g if c not in known and (c, p) not in fs and not find(c, lambda x: x.k == 'call' and x.a[0].split('::')[-1] in ('contains', 'try_trim_range'))]
                if rest or not clean(t): ctx.skip('walk', key, 'error on a condition that is not decided')
                else: ctx.ob('errors', key, False, f.span, 'fails although no step failed: %s' % show(t, 5)); got_any = 1
                continue
            if not is_adt(t, RES, 'Ok'): ctx.skip('walk', key, 'shape'); continue
            regs = parse(t.a[3][0], names)
            if regs is None: ctx.skip('walk', key, 'regions not recognised'); continue
            want = [[(w, ('%s%d' % (w, i), '%s%d' % (w, j))) for w, i, j in ps] for ps in walk(opn, [i for i in pa if i in keep], [i for i in pb if i in keep], cs, sc)]
            got_any = 1
            ctx.ob('walk', key, norm(regs) == norm(want), f.span, 'regions are made of %s, the entry/exit walk gives %s' % (regs, want))
    return got_any
