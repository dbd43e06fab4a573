"""C11 reported intersections: decision tables over what the solver returns, with the domains of the operands disjoint or overlapping; value flow of the
objective, its derivative, the accessors and the compound curves."""
from curvelab import *
from signs import *
import itertools, math, poly

MD = 1e-2
def check(ctx):
    ctx.rule('reported', 'a candidate of the solver is reported exactly when each parameter is in the domain of its operand and the two points are closer than the minimum distance; the points and parameters are those of the operand on whose side they stand')
    ctx.rule('grouped', 'of accepted candidates at the same place one is reported, the closest; candidates at different places are all reported')
    ctx.rule('objective', 'the solver minimises the squared distance between the two points, and is given its derivative')
    ctx.rule('compound', 'every span is intersected with the other operand under the options given and reported with the span it lies on; only a duplicate at the joint of two spans is dropped')
    ctx.rule('sides', 'the accessors give the side they are named after; swap exchanges the sides')
    ctx.assumptions.append('the candidates are what the solver returns, whatever they are; the pairs the boxes yield are taken from C16')
    A = Acc(ctx)
    reported(ctx, A); objective(ctx); compound(ctx, A); sides(ctx, A)

def impls(ctx, nm, ty): return [g for g in ctx.m.fns.values() if g.name == nm and (g.self_adt() or '').endswith('::' + ty)]
def dist(a, b): return math.sqrt(sum((x - y) ** 2 for x, y in zip(a, b)))

class Acc:
    """the public accessors, interpreted"""
    def __init__(self, ctx):
        self.ctx, self.f = ctx, {}
        for ty in ('Intersection', 'CompoundCurveIntersection'):
            for nm in ('a', 'b', 'a_parameter', 'b_parameter', 'as_tuple', 'swap', 'new', 'a_curve', 'b_curve'):
                g = impls(ctx, nm, ty)
                if len(g) == 1: self.f[ty, nm] = g[0]
    def run(self, ty, nm, *args):
        f = self.f.get((ty, nm))
        if f is None or f.nargs != len(args): return None
        I = engine(self.ctx, inline=lambda g: True)
        I.exact = True
        try: outs = I.auto(f, {f.arg_names.get(i + 1): x for i, x in enumerate(args)})
        except Budget: return None
        if len(outs) != 1: return None
        s, r = outs[0]
        return I.value(s, r), s
    def read(self, item, nm):
        if item.k != 'adt': return None
        ty = item.a[0].split('::')[-1]
        r = self.run(ty, nm, item)
        return None if r is None else r[0]

def solver_options(m, div=4):
    a = find_adt(m, 'CurveIntersectionSolverOptions')
    if a is None: return None
    names = [q['n'] for q in a['v'][0]['f']]
    if 'minimum_distance' not in names: return None
    return adt(a['path'], a['v'][0]['n'], names, [cf(MD) if n == 'minimum_distance' else ci(50) if n == 'max_iters' else ci(div) if n == 'knot_domain_division' else arg(n) for n in names])

def reported(ctx, A):
    m = ctx.m
    opts = solver_options(m)
    if opts is None: return ctx.skip('reported', 'options', 'fields changed')
    for ty in ('NurbsCurve', 'NurbsSurface'):
        fs = impls(ctx, 'find_intersections', ty)
        if len(fs) != 1: ctx.anchor_missing('find_intersections for ' + ty); continue
        f = fs[0]
        surf = ty == 'NurbsSurface'
        for doms in ([((2., 6.), (10., 14.)), ((0., 4.), (1., 3.)), ((1., 3.), (0., 4.)), ((0., 4.), (0., 5000.)), ((0., 5000.), (0., 4.)), ((0., 5000.), (0., 7000.))] if not surf else [((2., 6.), (10., 14.), (20., 24.)), ((0., 4.), (1., 3.), (-1., 5.)), ((1., 3.), (0., 4.), (1.5, 2.5)), ((0., 4.), (0., 4.), (0., 5000.)), ((0., 5000.), (0., 4.), (0., 4.)), ((0., 5000.), (0., 7000.), (0., 6000.))]):
            table(ctx, A, f, surf, doms, opts)

def inside(x, d): return d[0] <= x <= d[1]
def cases(doms):
    n = len(doms)
    def at(i, w):
        lo, hi = doms[i]
        return {'below': lo - .25, 'lo': lo, 'in': lo + .75, 'mid': lo + 1.125, 'near': lo + .75 + 1e-5, 'nearer': lo + .75 + 2e-5, 'hi': hi, 'above': hi + .25}[w]
    def P(*w): return tuple(at(i, x) for i, x in enumerate(w))
    out = []
    for i in range(n):
        for w in ('below', 'lo', 'in', 'hi', 'above'):
            v = ['in'] * n; v[i] = w
            out.append(('%s of operand parameter %d' % (w, i), [(P(*v), 1e-5)]))
    ins = ['in'] * n
    out.append(('farther than the minimum distance', [(P(*ins), 2e-2)]))
    out.append(('just farther', [(P(*ins), 1.001e-2)]))
    out.append(('just closer', [(P(*ins), .999e-2)]))
    out.append(('nothing found', []))
    out.append(('solver fails', ['err']))
    out.append(('no best parameter', ['none']))
    out.append(('one fails, one found', ['err', (P(*ins), 1e-5)]))
    out.append(('two apart', [(P(*ins), 1e-5), (P(*['mid'] * n), 1e-5)]))
    out.append(('two apart, reversed', [(P(*['mid'] * n), 1e-5), (P(*ins), 1e-5)]))
    if n == 3:
        out.append(('two apart with the same u', [(P('in', 'in', 'in'), 1e-5), (P('in', 'mid', 'mid'), 1e-5)]))
        out.append(('two apart with the same v', [(P('in', 'in', 'in'), 1e-5), (P('mid', 'in', 'mid'), 1e-5)]))
    out.append(('three apart', [(P(*['hi'] * n), 1e-5), (P(*ins), 1e-5), (P(*['mid'] * n), 1e-5)]))
    out.append(('two together, first closer', [(P(*ins), 1e-5), (P(*['near'] * n), 1e-4)]))
    out.append(('two together, second closer', [(P(*ins), 1e-4), (P(*['near'] * n), 1e-5)]))
    out.append(('two together and one apart', [(P(*['hi'] * n), 1e-5), (P(*ins), 1e-4), (P(*['near'] * n), 1e-5)]))
    for k, ds in enumerate(((1e-5, 1e-4, 1e-3), (1e-4, 1e-5, 1e-3), (1e-3, 1e-4, 1e-5))):
        out.append(('three together, %d closest' % k, [(P(*[w] * n), d) for w, d in zip(('nearer', 'near', 'in'), ds)]))
    out.append(('one inside, one farther', [(P(*ins), 1e-5), (P(*['mid'] * n), 2e-2)]))
    out.append(('one farther beside a close one', [(P(*['near'] * n), 2e-2), (P(*ins), 1e-5)]))
    out.append(('one outside, one inside', [(P(*['above'] + ['in'] * (n - 1)), 1e-5), (P(*['mid'] * n), 1e-5)]))
    return out

def table(ctx, A, f, surf, doms, opts):
    m = ctx.m
    n = len(doms)
    SA, SB = arg('FIRST'), arg('SECOND')
    want_dom = {SA: arr([arr([cf(doms[0][0]), cf(doms[0][1])]), arr([cf(doms[1][0]), cf(doms[1][1])])]) if surf else arr([cf(doms[0][0]), cf(doms[0][1])]),
                SB: arr([cf(doms[-1][0]), cf(doms[-1][1])])}
    itv = {SA: arr([cf(d[1] - d[0]) for d in doms[:2]]) if surf else cf(doms[0][1] - doms[0][0]), SB: cf(doms[-1][1] - doms[-1][0])}
    pos = {}
    def run(cands):
        pa = {}; pb = {}
        # candidate parameter order of the operands: (first..., second)
        for c in cands:
            if isinstance(c, str): continue
            ps, d = c
            first, second = ps[:-1], ps[-1]
            p = (sum(first), 1.)
            q = (p[0] + .6 * d, 1. + .8 * d)
            pa[first] = p
            pb[second] = q
        asked = []
        def ov(I, st, name, info, a):
            nm = info['name']
            e = eps_over(nm, a)
            if e is not None: return [(st, e)]
            v = [I.value(st, x) for x in a]
            if nm in ('knots_domain', 'knots_domain_interval') and v:
                t = (want_dom if nm == 'knots_domain' else itv).get(v[0])
                if t is None and v[0].k == 'call' and v[0].a[0] in ('pieceA', 'pieceB'):
                    if nm == 'knots_domain':
                        t = arr([arr([arg('lo'), arg('hi')])] * 2) if surf and v[0].a[0] == 'pieceA' else arr([arg('lo'), arg('hi')])
                return [(st, t)] if t is not None else None
            if nm == 'new' and 'BoundingBoxTree' in name: return [(st, mk('call', 'tree', (v[0],)))]
            if nm == 'try_traverse' and len(v) == 2:
                if v[0] is mk('call', 'tree', (SA,)) and v[1] is mk('call', 'tree', (SB,)): return [(st, ok(mk('call', 'traversal', ())))]
                asked.append('trees'); return None
            if nm == 'into_pairs_iter':
                ps = arr([arr([mk('call', 'cellA', (ci(k),)), mk('call', 'cellB', (ci(k),))]) for k in range(len(cands))])
                return [(st, ps)]
            if nm in ('curve_owned', 'surface_owned', 'curve', 'surface') and v and v[0].k == 'call' and v[0].a[0] in ('cellA', 'cellB'):
                return [(st, mk('call', 'piece' + v[0].a[0][-1], v[0].a[1]))]
            if nm == 'new' and 'Executor' in name: return [(st, mk('call', 'exec', (v[0], v[1])))]
            if nm in ('configure',) and v and v[0].k == 'call' and v[0].a[0] == 'exec': return [(st, v[0])]
            if nm == 'run' and v and v[0].k == 'call' and v[0].a[0] == 'exec':
                ks = {x.a[1][0] for x in find(v[0], lambda x: x.k == 'call' and x.a[0] in ('pieceA', 'pieceB'))}
                if len(ks) != 1: return None
                k = int(numeric(next(iter(ks))))
                r = mk('call', 'result', (ci(k),))
                return [(st, adt(RES, 'Err', ('0',), (arg('E'),)) if cands[k] == 'err' else ok(r))]
            if nm == 'state' and v and v[0].k == 'call' and v[0].a[0] == 'result': return [(st, v[0])]
            if nm in ('get_best_param', 'take_best_param', 'get_param', 'take_param') and v and v[0].k == 'call' and v[0].a[0] == 'result':
                c = cands[int(numeric(v[0].a[1][0]))]
                if c == 'none': return [(st, NONE)]
                ps = c[0]
                if surf: ps = (ps[2], ps[0], ps[1])
                return [(st, some(arr([cf(x) for x in ps])))]
            if nm == 'point_at' and v and v[0] in (SA, SB):
                ps = numbers(arr(v[1:2])) if len(v) == 2 else numbers(arr(v[1:]))
                if ps is None: return None
                p = pa.get(tuple(ps)) if v[0] is SA else pb.get(ps[0]) if len(ps) == 1 else None
                if p is None:
                    asked.append(('point', 'first' if v[0] is SA else 'second', ps))
                    p = (777. + sum(ps), -777.)
                return [(st, arr([cf(x) for x in p]))]
            if nm in ('norm', 'magnitude', 'norm_squared', 'magnitude_squared') and len(v) == 1:
                xs = numbers(v[0]) if v[0].k == 'arr' else coords(v[0])
                if xs is not None:
                    s = sum(x * x for x in xs)
                    return [(st, cf(s if nm.endswith('squared') else math.sqrt(s)))]
            if nm in ('distance', 'metric_distance', 'distance_squared') and len(v) == 2:
                x, y = numbers(v[0]), numbers(v[1])
                if x and y:
                    s = dist(x, y)
                    return [(st, cf(s * s if nm.endswith('squared') else s))]
            return None
        def inl(g): return True if g.span.startswith('src/intersects') and g.name not in ('gradient', 'cost', 'init', 'next_iter', 'terminate') else None
        def opq(g): return True if g.name in ('point_at', 'knots_domain', 'knots_domain_interval', 'try_traverse', 'into_pairs_iter') else None
        I = engine(ctx, inline=inl, opaque=opq)
        I.unroll, I.budget, I.t_end, I.exact, I.cap = 40, 200000, time.time() + 20, True, 400
        I.override = ov
        with deciding(Case()):
            try: return [(s.f, I.value(s, r)) for s, r in I.auto(f, {f.arg_names.get(1): SA, f.arg_names.get(2): SB, f.arg_names.get(3): some(opts)})], asked, pa, pb
            except Budget: return None, asked, pa, pb
    for label, cands in cases(doms):
        inst = '%s in %s: %s' % ('surface and curve' if surf else 'curves', ' '.join('[%g,%g]' % d for d in doms), label)
        outs, asked, pa, pb = run(cands)
        if outs is None: ctx.skip('reported', inst, 'budget'); continue
        good = [c for c in cands if not isinstance(c, str) and all(inside(x, d) for x, d in zip(c[0], doms)) and c[1] < MD]
        rule = 'grouped' if len(good) > 1 else 'reported'
        want, groups = [], []
        for c in sorted(good):
            if groups and all(abs(x - y) < 1e-4 for x, y in zip(groups[-1][-1][0], c[0])): groups[-1].append(c)
            else: groups.append([c])
        want = sorted(min(g, key=lambda c: c[1])[0] for g in groups)
        for fs, r in outs:
            if fs or not is_adt(r, RES, 'Ok') or r.a[3][0].k != 'arr': ctx.skip(rule, inst, (show(r, 5) + ' | ' + showf(fs, 3))[:160]); continue
            got, bad = [], None
            for it in r.a[3][0].a[0]:
                a, b = A.read(it, 'a'), A.read(it, 'b')
                if a is None or b is None: bad = 'accessors'; break
                pA, tA, pB, tB = elem(a, ci(0)), elem(a, ci(1)), elem(b, ci(0)), elem(b, ci(1))
                ta = numbers(tA) if tA.k in ('arr', 'tup') else numbers(arr([tA])); tb = numbers(arr([tB]))
                if ta is None or tb is None: bad = 'parameters ' + show(a, 3); break
                got.append((tuple(ta) + tuple(tb), numbers(pA), numbers(pB)))
            if bad: ctx.skip(rule, inst, bad[:120]); continue
            ctx.ob(rule, inst, sorted(g[0] for g in got) == want, f.span, '%s: reported at %s instead of %s' % (inst, sorted(g[0] for g in got), want))
            for ps, p, q in got:
                if p is None or q is None: ctx.skip('reported', inst + ' points', 'not recognised'); continue
                ctx.ob('reported', inst + ' points', p == list(pa.get(ps[:-1], ())) and q == list(pb.get(ps[-1], ())), f.span, 'the points reported at %s are %s and %s, not the points of the operands there' % (ps, p, q))
            ctx.count('candidate cases')
        if 'trees' in asked: ctx.skip('reported', inst, 'other trees than those of the operands')
def objective(ctx):
    m = ctx.m
    for ty, surf in (('CurveIntersectionProblem', False), ('SurfaceCurveIntersectionProblem', True)):
        a = find_adt(m, ty)
        if a is None: ctx.skip('objective', ty, 'type not recognised'); continue
        # the objects: rational point/derivative values are symbolic vectors
        ps = [arg('x0'), arg('x1'), arg('x2')][:3 if surf else 2]
        first = tuple(ps[1:]) if surf else (ps[0],)
        second = (ps[0],) if surf else (ps[1],)
        new = [g for g in m.fns.values() if g.name == 'new' and (g.self_adt() or '').endswith('::' + ty)]
        OA, OB = arg('OBJA'), arg('OBJB')
        self_t = None
        if len(new) == 1:
            I = engine(ctx)
            try:
                o = I.auto(new[0], {new[0].arg_names.get(1): OA, new[0].arg_names.get(2): OB})
                if len(o) == 1: self_t = I.value(o[0][0], o[0][1])
            except Budget: pass
        if self_t is None: ctx.skip('objective', ty, 'constructor'); continue
        V = lambda n: arr([arg(n + 'x'), arg(n + 'y')])
        bad = []
        def ov(I, st, name, info, args):
            nm = info['name']
            v = [I.value(st, x) for x in args]
            if nm == 'rational_derivatives' and v and v[0] in (OA, OB):
                at = tuple(v[1:-1])
                who = v[0] is OA
                if at != (first if who else second): bad.append(nm); return None
                if surf and who: return [(st, arr([arr([V('A'), V('Av')]), arr([V('Au'), V('Auv')])]))]
                return [(st, arr([V('A' if who else 'B'), V('At' if who else 'Bt')]))]
            if nm in ('point', 'point_at') and v and v[0] in (OA, OB):
                at, who = tuple(v[1:]), v[0] is OA
                if at != (first if who else second): bad.append(nm); return None
                h = 'a' if who else 'b'
                if nm == 'point_at': return [(st, V('A' if who else 'B'))]
                return [(st, arr([op('Mul', c, arg('w' + h)) for c in V('A' if who else 'B').a[0]] + [arg('w' + h)]))]
            if nm == 'dim' and not v: return [(st, ci(3))]
            if nm in ('generic_view', 'view', 'generic_slice', 'rows', 'xy') and v and v[0].k == 'arr': return [(st, arr(v[0].a[0][:2]))]
            if nm in ('norm_squared', 'magnitude_squared') and len(v) == 1:
                xs = [comp2(v[0], i) for i in range(2)]
                return [(st, op('Add', *[op('Mul', x, x) for x in xs]))]
            if nm == 'dot' and len(v) == 2:
                return [(st, op('Add', *[op('Mul', comp2(v[0], i), comp2(v[1], i)) for i in range(2)]))]
        for what in ('gradient', 'cost'):
            g = impls(ctx, what, ty)
            if len(g) != 1: ctx.skip('objective', ty + ' ' + what, 'not recognised'); continue
            g = g[0]
            del bad[:]
            I = engine(ctx); I.exact = True; I.unroll = 10; I.t_end = time.time() + 20
            I.override = ov
            case = Case(pos=[arg('wa'), arg('wb')])
            with deciding(case):
                try: outs = [(s.f, I.value(s, r)) for s, r in I.auto(g, {g.arg_names.get(1): self_t, g.arg_names.get(2): arr(ps)})]
                except Budget: outs = None
            if bad: ctx.ob('objective', ty + ' ' + what + ' parameters', False, g.span, '%s of %s evaluates an operand at the parameter of the other' % (what, ty)); continue
            if not outs: ctx.skip('objective', ty + ' ' + what, 'budget'); continue
            d = [op('Sub', arg('A' + c), arg('B' + c)) for c in 'xy']
            dot = lambda n: op('Add', *[op('Mul', d[i], arg(n + 'xy'[i])) for i in range(2)])
            if what == 'cost': want = [op('Add', *[op('Mul', x, x) for x in d])]
            elif surf: want = [op('Mul', cf(-2.), dot('Bt')), op('Mul', cf(2.), dot('Au')), op('Mul', cf(2.), dot('Av'))]
            else: want = [op('Mul', cf(2.), dot('At')), op('Mul', cf(-2.), dot('Bt'))]
            for fs, r in outs:
                if fs or not is_adt(r, RES, 'Ok'): ctx.skip('objective', ty + ' ' + what, (show(r, 4) + showf(fs, 2))[:140]); continue
                r = r.a[3][0]
                got = [r] if what == 'cost' else [comp2(r, i) for i in range(len(want))]
                for i, (x, y) in enumerate(zip(got, want)):
                    if set(roots(x)) - set(arg(q) for q in 'Ax Ay Bx By Atx Aty Btx Bty Aux Auy Avx Avy wa wb'.split()) or find(x, lambda z: z.k not in ('op', 'arg', 'lin') and not is_num(z)):
                        ctx.skip('objective', '%s %s %d' % (ty, what, i), show(x, 5)[:140]); continue
                    ctx.ob('objective', '%s %s %d' % (ty, what, i), poly.same(x, y) is not False, g.span, 'component %d of %s of %s is not that of the squared distance: %s' % (i, what, ty, show(x, 8)[:160]))
                    ctx.count('objective components')
def is_num(t): return numeric(t) is not None

def explore(ctx, f, args, ov, t=20):
    I = engine(ctx, inline=lambda g: True if g.span.startswith('src/intersects') or g.span.startswith('src/misc') or g.name in ('spans',) else None,
               opaque=lambda g: True if g.name in ('knots_domain',) else None)
    I.unroll, I.budget, I.t_end, I.exact, I.cap = 40, 200000, time.time() + t, True, 400
    def over(I, st, name, info, a):
        e = eps_over(info['name'], a)
        if e is not None: return [(st, e)]
        return ov(I, st, info['name'], [I.value(st, x) for x in a])
    I.override = over
    with deciding(Case()):
        try: return [(s.f, I.value(s, r)) for s, r in I.auto(f, args)]
        except Budget: return None

DOM = (2., 6.)
def compound(ctx, A):
    m = ctx.m
    fs = impls(ctx, 'find_intersections', 'CompoundCurve')
    def other_compound(g): return 'CompoundCurve<' in g.lty(2).s
    one = [g for g in fs if not other_compound(g)]
    two = [g for g in fs if other_compound(g)]
    if len(one) != 1 or len(two) != 1: return ctx.skip('compound', 'find_intersections', 'overloads not recognised')
    a = find_adt(m, 'Intersection')
    mkI = lambda pa, ta, pb, tb: None
    newI = A.f.get(('Intersection', 'new'))
    if newI is None: return ctx.skip('compound', 'Intersection::new', 'not recognised')
    def hit(k, j, ta, tb):
        r = A.run('Intersection', 'new', arr([arg('pa%d_%d' % (k, j)), cf(ta)]), arr([arg('pb%d_%d' % (k, j)), cf(tb)]))
        return r[0]
    OPT_, OTHER = arg('OPTIONS'), arg('OTHER')
    E = 1e-3
    S, M, L = DOM[0] + E, 4., DOM[1] - E          # near the start, in the middle, near the end
    tabs = []
    for n in (1, 2, 3):
        base = [[M]] * n
        tabs += [[[]] * n, base, [[S, M, L]] * n, [[M, M + .5]] * n]
        for k in range(n):
            for x in ([], [S], [L], [S, L]):
                for y in ([], [S], [M], [L]):
                    t = [list(z) for z in base]; t[k] = x
                    if n > 1: t[(k + 1) % n] = y
                    if t not in tabs: tabs.append(t)
    for tab in tabs:
        n = len(tab)
        spans = [arg('SPAN%d' % k) for k in range(n)]
        me = build(m, 'CompoundCurve', {'spans': arr(spans)})
        if me is None: ctx.skip('compound', 'CompoundCurve', 'fields changed'); return
        f = one[0]
        bad = []
        def ov(I, st, nm, v):
            if nm == 'find_intersections' and len(v) == 3 and v[0] in spans:
                if v[1] is not OTHER: bad.append('other'); return None
                if v[2] is not some(OPT_): bad.append('options')
                k = spans.index(v[0])
                return [(st, ok(arr([hit(k, j, t, 100. + 10 * k + j) for j, t in enumerate(tab[k])])))]
            if nm == 'knots_domain' and v and v[0] in spans: return [(st, arr([cf(DOM[0]), cf(DOM[1])]))]
        outs = explore(ctx, f, {f.arg_names.get(1): me, f.arg_names.get(2): OTHER, f.arg_names.get(3): some(OPT_)}, ov)
        inst = 'crossings at %s' % (tab,)
        if outs is None: ctx.skip('compound', inst, 'budget'); continue
        ctx.ob('compound', 'options', 'options' not in bad, f.span, 'a span is intersected under other options than those given')
        ctx.ob('compound', 'operand', 'other' not in bad, f.span, 'a span is intersected with something else than the other operand')
        want = {(k, j) for k in range(n) for j in range(len(tab[k]))}
        opt = []     # pairs of duplicates at a joint: one of the two may go (the code drops the earlier)
        for k in range(n):
            l = (k + 1) % n
            if l != k and L in tab[k] and S in tab[l]: opt.append(((k, tab[k].index(L)), (l, tab[l].index(S))))
        for fs_, r in outs:
            if fs_ or not is_adt(r, RES, 'Ok') or r.a[3][0].k != 'arr': ctx.skip('compound', inst, (show(r, 4) + ' ' + showf(fs_, 2))[:140]); continue
            got, okk = [], True
            for it in r.a[3][0].a[0]:
                x, y = A.read(it, 'a'), A.read(it, 'b')
                if x is None or y is None: okk = False; break
                c, p, t = (elem(x, ci(i)) for i in range(3))
                c2, p2, t2 = (elem(y, ci(i)) for i in range(3))
                c, c2 = cow(c), cow(c2)
                q = [z.a[0] for z in (p, p2) if z.k == 'arg']
                if len(q) != 2 or numeric(t) is None or numeric(t2) is None or c.k != 'arg' or c2.k != 'arg': okk = False; break
                k, j = (int(z) for z in q[0][2:].split('_'))
                got.append((k, j))
                ctx.ob('compound', 'sides of a crossing', q[0] == 'pa%d_%d' % (k, j) and q[1] == 'pb%d_%d' % (k, j) and float(numeric(t)) == tab[k][j] and float(numeric(t2)) == 100. + 10 * k + j and c is spans[k] and c2 is OTHER, f.span,
                       'a crossing of a span is reported with the curve, point or parameter of another side')
            if not okk: ctx.skip('compound', inst, 'crossing not recognised: ' + show(r, 6)[:120]); continue
            need = want - {x for p in opt for x in p}
            fine = len(got) == len(set(got)) and need <= set(got) <= want and all(p[0] in got or p[1] in got for p in opt)
            ctx.ob('compound', inst, fine, f.span, '%s: reports crossings (span, index) %s' % (inst, sorted(got)))
            ctx.count('compound cases')
    # compound against compound
    f = two[0]
    for n, k in ((1, 1), (2, 1), (1, 2), (2, 3)):
        spans = [arg('SPAN%d' % i) for i in range(n)]; others = [arg('OTHER%d' % i) for i in range(k)]
        me = build(m, 'CompoundCurve', {'spans': arr(spans)}); you = build(m, 'CompoundCurve', {'spans': arr(others)})
        bad = []
        def ov(I, st, nm, v):
            if nm == 'find_intersections' and len(v) == 3:
                if v[2] is not some(OPT_): bad.append('options')
                if v[0] is me and v[1] in others: return [(st, ok(arr([mk('call', 'found', (v[1], ci(i))) for i in range(2)])))]
                if v[1] is me and v[0] in others: return [(st, ok(arr([mk('call', 'swapped', (v[0], ci(i))) for i in range(2)])))]
                if v[1] is you and v[0] in spans: return None
        outs = explore(ctx, f, {f.arg_names.get(1): me, f.arg_names.get(2): you, f.arg_names.get(3): some(OPT_)}, ov)
        inst = '%d spans against %d spans' % (n, k)
        if outs is None: ctx.skip('compound', inst, 'budget'); continue
        ctx.ob('compound', 'options', 'options' not in bad, f.span, 'a span is intersected under other options than those given')
        for fs_, r in outs:
            its = r.a[3][0].a[0] if is_adt(r, RES, 'Ok') and r.a[3][0].k == 'arr' and not fs_ else None
            if its is None or not all(x.k == 'call' and x.a[0] == 'found' for x in its): ctx.skip('compound', inst, show(r, 4)[:140]); continue
            ctx.ob('compound', inst, sorted((x.a[1][0].a[0], int(numeric(x.a[1][1]))) for x in its) == sorted((o.a[0], i) for o in others for i in range(2)), f.span, '%s: not every crossing of every pair of spans is reported once' % inst)
            ctx.count('compound cases')
def cow(t):
    while t.k == 'adt' and len(t.a[3]) == 1: t = t.a[3][0]
    return t

def flat(t): return tuple(flat(x) for x in t.a[0]) if t.k in ('arr', 'tup') else t
def sides(ctx, A):
    m = ctx.m
    PA, TA, PB, TB, CA, CB = (arg(x) for x in ('PA', 'TA', 'PB', 'TB', 'CA', 'CB'))
    r = A.run('Intersection', 'new', arr([PA, TA]), arr([PB, TB]))
    if r is None: return ctx.skip('sides', 'Intersection::new', 'not recognised')
    it = r[0]
    want = {'a': (PA, TA), 'b': (PB, TB), 'a_parameter': TA, 'b_parameter': TB}
    site = A.f['Intersection', 'new'].span
    def judge(inst, got, want, site):
        if got is None or find(got, lambda x: x.k in UNCLEAN): return ctx.skip('sides', inst, 'not recognised')
        ctx.ob('sides', inst, flat(got) == flat(want), site, '%s gives %s' % (inst, show(got, 4)[:120])); ctx.count('accessors')
    for nm, w in want.items():
        judge('Intersection ' + nm, A.read(it, nm), arr(w) if isinstance(w, tuple) else w, site)
    judge('Intersection as_tuple', A.read(it, 'as_tuple'), arr([arr([PA, TA]), arr([PB, TB])]), site)
    r = A.run('CompoundCurveIntersection', 'new', CA, CB, it)
    if r is None: return ctx.skip('sides', 'CompoundCurveIntersection::new', 'not recognised')
    x = r[0]
    def both(x, tag, s):
        for nm, w in {'a': (CA, PA, TA), 'b': (CB, PB, TB), 'a_parameter': TA, 'b_parameter': TB, 'a_curve': CA, 'b_curve': CB}.items():
            k = nm if not s else {'a': 'b', 'b': 'a'}[nm[0]] + nm[1:]
            got = A.read(x, k)
            if got is not None and isinstance(w, tuple): got = arr([cow(elem(got, ci(0)))] + [elem(got, ci(i)) for i in (1, 2)])
            elif got is not None: got = cow(got)
            judge('CompoundCurveIntersection %s%s' % (k, tag), got, arr(w) if isinstance(w, tuple) else w, A.f['CompoundCurveIntersection', 'new'].span)
    both(x, '', False)
    r = A.run('CompoundCurveIntersection', 'swap', x)
    if r is not None:
        y = r[1].s.get(('r', 0))
        if y is None: ctx.skip('sides', 'swap', 'not recognised')
        else: both(y, ' after swap', True)
