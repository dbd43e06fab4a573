"""C22 compound curves keep every span: joining, decided by interpreting the constructor on chains of explicit spans (straight, rational, unclamped) listed in
every order and direction; queries over all spans (length, closest point, closedness) with the spans' own answers replaced by values."""
from asklab import *
from signs import *
from vf import *
import itertools

EPSJ = 1e-9
def check(ctx):
    ctx.rule('join', 'spans that form one chain, open or closed, listed in any order and direction, are all kept once, each starting where the one before it ends, with the shape they had')
    ctx.rule('parameters', 'the knots start at 0 and each span\'s domain starts where the domain of the one before it ends, keeping its width and spacing')
    ctx.rule('as given', 'a compound curve made from one curve or collected from an iterator has those spans, and none when there are none')
    ctx.rule('query', 'the length is the sum over all spans, the closest point the closest of all spans, closed exactly when the last span ends where the first starts')
    ctx.assumptions.append('chains of up to four spans without branching; the joints coincide within the tolerance of the constructor')
    joins(ctx); given(ctx); queries(ctx)

def numcurve(m, p, ks, pts): return curve(m, p, [float(k) for k in ks], [arr([cf(float(x)) for x in q]) for q in pts])
def line(m, s, e, k0=0., k1=1.): return 1, [k0, k0, k1, k1], [(s[0], s[1], 1.), (e[0], e[1], 1.)]
def bend(m, s, e, k0=2., k1=5.):
    c = ((s[0] + e[0]) / 2 + .7, (s[1] + e[1]) / 2 - .4)
    return 2, [k0] * 3 + [k1] * 3, [(s[0], s[1], 1.), (c[0] * .5, c[1] * .5, .5), (e[0], e[1], 1.)]
def loose(m, s, e, k0=1.):
    c = ((s[0] + e[0]) / 2 - .3, (s[1] + e[1]) / 2 + .9)
    return 2, [k0 + i * 2 for i in range(6)], [(2 * s[0] - c[0], 2 * s[1] - c[1], 1.), (c[0], c[1], 1.), (2 * e[0] - c[0], 2 * e[1] - c[1], 1.)]
def turned(c):
    p, ks, pts = c
    return p, [ks[0] + ks[-1] - k for k in reversed(ks)], list(reversed(pts))
def read(t):
    """(degree, knots, control points) of an explicit curve"""
    if t is None or t.k != 'adt' or not {'degree', 'knots', 'control_points'} <= set(t.a[2]): return None
    ks, g = knots_of(fld(t, 'knots')), fld(t, 'control_points')
    p = numeric(fld(t, 'degree'))
    if ks is None or p is None or g.k != 'arr': return None
    out = []
    for x in g.a[0]:
        v = vecof(x)
        v = [number(y) for y in v] if v is not None else [None]
        if None in v: return None
        out.append(tuple(v))
    return int(p), [float(k) for k in ks], out
def number(t):
    v = numeric(t)
    if v is None:
        f = lin(t)
        v = f.get('', 0) if f is not None and not set(f) - {''} else None
    return None if v is None else float(v)
def near(a, b, e=EPSJ): return len(a) == len(b) and all(abs(x - y) <= e for x, y in zip(a, b))
def same(c, d):
    """same curve up to a shift of its knots"""
    return c[0] == d[0] and near([k - c[1][0] for k in c[1]], [k - d[1][0] for k in d[1]]) and len(c[2]) == len(d[2]) and all(near(x, y) for x, y in zip(c[2], d[2]))
def dom(c): return c[1][c[0]], c[1][-c[0] - 1]
def ends(c):
    if c[1][0] == c[1][c[0]]: a, b = c[2][0], c[2][-1]
    else: a, b = [tuple((x + y) / 2 for x, y in zip(p, q)) for p, q in ((c[2][0], c[2][1]), (c[2][-2], c[2][-1]))]
    return (a[0] / a[2], a[1] / a[2]), (b[0] / b[2], b[1] / b[2])

def norms(I, st, name, info, a):
    nm = info['name']
    if nm in ('norm', 'magnitude', 'norm_squared', 'magnitude_squared') and len(a) == 1:
        v = vecof(bare(I.value(st, a[0])))
        v = [number(x) for x in v] if v is not None else [None]
        if None in v: return None
        s = sum(x * x for x in v)
        return [(st, cf(s if nm.endswith('squared') else math.sqrt(s)))]
    if nm in ('distance', 'distance_squared', 'metric_distance') and len(a) == 2:
        v, w = [vecof(bare(I.value(st, x))) for x in a]
        if v is None or w is None or len(v) != len(w): return None
        d = [(number(x), number(y)) for x, y in zip(v, w)]
        if any(None in x for x in d): return None
        s = sum((x - y) ** 2 for x, y in d)
        return [(st, cf(s if nm.endswith('squared') else math.sqrt(s)))]

def chains(m):
    q = [(0., 0.), (3., .5), (4., 4.), (1., 5.), (-2., 3.)]
    kinds = (line, bend, loose)
    for n in (1, 2, 3, 4):
        for closed in (False, True):
            if n == 1 and closed: continue
            for rot in range(3 if n < 4 else 1):
                pts = q[:n + 1] if not closed else q[:n] + q[:1]
                cs = [kinds[(i + rot) % 3](m, pts[i], pts[i + 1]) for i in range(n)]
                orders = list(itertools.permutations(range(n)))
                turns = list(itertools.product((0, 1), repeat=n))
                if n == 4: pairs = [(o, turns[(7 * i + (5 if closed else 0)) % 16]) for i, o in enumerate(orders)]
                elif n == 3: pairs = [(o, t) for i, o in enumerate(orders) for j, t in enumerate(turns) if (i + j + rot) % 3 == 0]
                else: pairs = [(o, t) for o in orders for t in turns]
                for o, t in pairs:
                    yield ('%d spans, %s, kinds %d, listed %s' % (n, 'closed' if closed else 'open', rot, ' '.join('%s%d' % ('-' if t[i] else '', i) for i in o)),
                           [turned(cs[i]) if t[i] else cs[i] for i in o], closed)

def joins(ctx):
    m = ctx.m
    f = public(ctx, 'CompoundCurve', 'new')
    if not f: return
    late = 0
    for inst, cs, closed in chains(m):
        xs = [numcurve(m, *c) for c in cs]
        if None in xs: return ctx.skip('join', inst, 'fields changed')
        if late > 3: ctx.skip('join', inst, 'budget'); continue
        outs = evaluate(ctx, f, dict(zip(names(f), [arr(xs)])), 3, more=norms)
        if outs is None: late += 1; ctx.skip('join', inst, 'budget'); continue
        if outs == []: ctx.ob('join', inst, False, f.span, 'joining %s always panics' % inst); continue
        for fs, me, r in outs:
            sp = fld(r, 'spans') if r.k == 'adt' and 'spans' in r.a[2] else None
            got = [read(x) for x in sp.a[0]] if sp is not None and sp.k == 'arr' else [None]
            if fs or None in got: ctx.skip('join', inst, (showf(fs, 2) + show(r, 4))[:110]); continue
            left, lost = list(cs), []
            for g in got:
                k = next((i for i, c in enumerate(left) if same(g, c) or same(g, turned(c))), None)
                if k is None: lost.append(g)
                else: left.pop(k)
            msg = '%s: %d of %d spans are missing' % (inst, len(left), len(cs)) if left else '%s: a span is not one of those given: degree %d, knots %s' % ((inst,) + lost[0][:2]) if lost else ''
            if not msg:
                e = [ends(g) for g in got]
                for i in range(len(e) - 1 + closed):
                    a, b = e[i][1], e[(i + 1) % len(e)][0]
                    if not near(a, b, 1e-6): msg = '%s: span %d starts at %s, but the one before it ends at %s' % (inst, (i + 1) % len(e), b, a); break
            ctx.ob('join', inst, not msg, f.span, msg); ctx.count('joins')
            if msg: continue
            d = [dom(g) for g in got]
            ok = abs(got[0][1][0]) <= EPSJ and all(abs(x[1] - y[0]) <= EPSJ for x, y in zip(d, d[1:]))
            ctx.ob('parameters', inst, ok, f.span, '%s: the spans have the domains %s, the first knot is %g' % (inst, d, got[0][1][0]))
    for outs in [evaluate(ctx, f, dict(zip(names(f), [arr([])])), 3, more=norms)]:
        if outs is None: ctx.skip('as given', 'no spans', 'budget')
        elif outs == []: ctx.ob('as given', 'no spans', False, f.span, 'a compound curve of no spans panics')
        else:
            for fs, me, r in outs: ctx.ob('as given', 'no spans', not fs and r.k == 'adt' and fld(r, 'spans') is arr([]), f.span, 'gives ' + show(r, 4))

def given(ctx):
    m = ctx.m
    c = numcurve(m, *bend(m, (0., 0.), (1., 2.)))
    u = numcurve(m, *loose(m, (1., 2.), (4., 4.)))
    for nm, a, want in (('from', c, [c]), ('from', u, [u]), ('from_iter', arr([u, c]), [u, c]), ('from_iter', arr([]), [])):
        f = [g for g in impls(ctx, nm, 'CompoundCurve')]
        if len(f) != 1: ctx.skip('as given', nm, 'not found'); continue
        for fs, me, r in evaluate(ctx, f[0], dict(zip(names(f[0]), [a])), 3, more=norms) or []:
            sp = fld(r, 'spans') if r.k == 'adt' and 'spans' in r.a[2] else None
            got = [read(x) for x in sp.a[0]] if sp is not None and sp.k == 'arr' else [None]
            if fs or None in got: ctx.skip('as given', nm, show(r, 4)[:100]); continue
            ctx.ob('as given', '%s: %d spans' % (nm, len(want)), len(got) == len(want) and all(same(x, read(y)) for x, y in zip(got, want)), f[0].span, '%s of %d spans gives %s' % (nm, len(want), got)); ctx.count('made')

def queries(ctx):
    m = ctx.m
    S = [arg('S%d' % i) for i in range(3)]
    ln, cl, ic = [public(ctx, 'CompoundCurve', n) for n in ('try_length', 'find_closest_point', 'is_closed')]
    for n in (1, 2, 3):
        me = build(m, 'CompoundCurve', {'spans': arr(S[:n])})
        if me is None: return ctx.skip('query', 'compound', 'fields changed')
        for vals in itertools.product((2., 3.5, None), repeat=n):
            def stub(I, st, name, info, a):
                v = I.value(st, a[0]) if a else None
                if info['name'] == 'try_length' and v in S: 
                    x = vals[S.index(v)]
                    return [(st, adt(RES, 'Err', ('0',), (arg('E'),)) if x is None else ok(cf(x + S.index(v) * .25)))]
            def total(r):
                if is_adt(r, RES, 'Err'): return None in vals
                return None not in vals and scalar(r.a[3][0], sum(x + i * .25 for i, x in enumerate(vals))) if is_adt(r, RES, 'Ok') else None
            if ln: ask(ctx, 'query', 'length of spans %s' % (vals,), ln, [me], total, 3, more=stub)
        for vals in itertools.product((1., -2., 5., None), repeat=n):
            def stub(I, st, name, info, a):
                v = I.value(st, a[0]) if a else None
                if info['name'] == 'find_closest_point' and v in S:
                    x = vals[S.index(v)]
                    return [(st, adt(RES, 'Err', ('0',), (arg('E'),)) if x is None else ok(arr([cf(x + S.index(v) * .125), cf(1.)])))]
                return norms(I, st, name, info, a)
            def nearest(r):
                if is_adt(r, RES, 'Err'): return None in vals
                if None in vals: return False if is_adt(r, RES, 'Ok') else None
                w = min((x + i * .125 for i, x in enumerate(vals)), key=lambda x: (x - .5) ** 2)
                return agree(bare(r.a[3][0]), [w, 1.]) if is_adt(r, RES, 'Ok') else None
            if cl: ask(ctx, 'query', 'closest of %s' % (vals,), cl, [me, arr([cf(.5), cf(1.)])], nearest, 3, more=stub)
    if ic:
        for n in (1, 2, 3):
            for gap in (0., 1e-3, 2.):
                for at in (0, 1):      # a joint inside that is open does not matter; the first and the last do
                    q = [(0., 0.), (3., .5), (4., 4.)][:n]
                    end = (q[0][0] + gap * (1 - at), q[0][1] + gap * at)
                    cs = [(bend, loose, line)[i](m, q[i], q[i + 1] if i + 1 < n else end) for i in range(n)]
                    me = build(m, 'CompoundCurve', {'spans': arr([numcurve(m, *c) for c in cs])})
                    ask(ctx, 'query', 'closed: %d spans, gap %g %s' % (n, gap, 'xy'[at]), ic, [me], lambda r: scalar(r, int(gap == 0)), 3, more=norms)
        me = build(m, 'CompoundCurve', {'spans': arr([])})
        ask(ctx, 'query', 'closed: no spans', ic, [me], lambda r: scalar(r, 0), 3, more=norms)
