"""C17 containment in a polygon and intersection of segments: the code is explored once for every feasible combination of vertex levels and
turn directions (the turn predicate replaced by the case), and its answer compared with the winding rule."""
from vf import *
from meshlab import *
from signs import *
import itertools

ORI = 'Orientation'
CCW, CW, COL = 1, -1, 0
NAMES = {1: 'CounterClockwise', -1: 'Clockwise', 0: 'Collinear'}

def turn(p, q, r):
    d = (q[0] - p[0]) * (r[1] - p[1]) - (q[1] - p[1]) * (r[0] - p[0])
    return (d > 0) - (d < 0)
sgn = lambda x: (x > 0) - (x < 0)

def orient_value(table, pts, v):
    """turn direction of three symbolic points from the table of the case; None when one of them is not recognised"""
    ix = [next((k for k, p in pts.items() if same_point(p, x)), None) for x in v]
    if None in ix: return None
    if len(set(ix)) < 3: return 0
    for perm, s in (((0, 1, 2), 1), ((1, 2, 0), 1), ((2, 0, 1), 1), ((0, 2, 1), -1), ((1, 0, 2), -1), ((2, 1, 0), -1)):
        k = tuple(ix[i] for i in perm)
        if k in table: return s * table[k]
    return None
def same_point(p, x):
    if p is x: return True
    c = [elem(x, ci(i)) for i in range(2)]
    return all(a is b for a, b in zip(c, p.a[0]))

def explore(ctx, f, args, table, pts, case, extra=None):
    """[(facts, value)] or None"""
    m = ctx.m
    I = engine(ctx, inline=lambda g: True if g.span.startswith(('src/misc/polygon_boundary', 'src/misc/line', 'src/misc/orientation')) else None)
    I.unroll, I.budget, I.t_end, I.exact, I.cap = 64, 200000, time.time() + 20, True, 400
    unk = []
    def over(I, st, name, info, a):
        nm = info['name']
        v = [I.value(st, x) for x in a]
        if extra:
            r = extra(I, st, nm, v)
            if r is not None: return r
        if nm == 'orientation' and len(v) == 3:
            o = orient_value(table, pts, v)
            if o is None: unk.append(v); return None
            return [(st, unit_adt(m, ORI, NAMES[o]))]
        if nm == 'orient2d' and len(v) == 3:
            o = orient_value(table, pts, [strip_coord(x) for x in v])
            if o is None: unk.append(v); return None
            return [(st, cf(float(o)))]
    I.override = over
    with deciding(case):
        try: outs = I.auto(f, args)
        except Budget: return None
    return [(s.f, r) for s, r in outs]
def strip_coord(x):
    """Coord{x, y} of converted numbers"""
    xs = []
    for n in ('x', 'y'):
        c = fld(x, n)
        while True:
            if c.k == 'call' and len(c.a[1]) == 1: c = c.a[1][0]
            elif c.k in ('proj', 'fld') and isinstance(c.a[0], T): c = c.a[0]
            else: break
        xs.append(c)
    return arr(xs)

def check(ctx):
    ctx.rule('winding', 'a point is inside a polygon exactly when upward edges with the point strictly on the left and downward edges with the point strictly on the right do not cancel, over every edge including the closing one, each edge counting its lower end and not its upper end')
    ctx.rule('turn', 'the turn of three points is counter-clockwise, clockwise or collinear by the sign of the exact predicate on those three points in that order')
    ctx.rule('segments', 'two segments intersect exactly when neither has both ends strictly on one side of the other and they are not on one line, whichever is given first')
    ctx.assumptions.append('robust::orient2d returns the exact sign of the determinant; no NaN coordinates')
    winding(ctx); turns(ctx); segments(ctx)

def winding(ctx):
    m = ctx.m
    fs = [g for g in m.fns.values() if g.name == 'contains' and (g.self_adt() or '').endswith('::PolygonBoundary')]
    if len(fs) != 1: return ctx.anchor_missing('Contains for PolygonBoundary')
    f = fs[0]
    C = arr([arg('cx'), arg('cy')])
    grid2 = [(x, y) for x in (-2, -1, 0, 1, 2) for y in (-2, -1, 0, 1, 2)]
    grid1 = [(x, y) for x in (-1, 0, 1) for y in (-1, 0, 1)]
    reps = {}
    def feed(vs):
        n = len(vs)
        ys = tuple(sgn(v[1]) for v in vs)
        os = tuple(turn(vs[i], vs[(i + 1) % n], (0, 0)) if n > 1 else 0 for i in range(n))
        reps.setdefault((ys, os), vs)
    feed([])
    for n in (1, 2):
        for vs in itertools.product(grid1, repeat=n): feed(vs)
    for vs in itertools.product(grid2, repeat=3): feed(vs)
    tri = [(-2, -1), (2, -1), (0, 2)]
    for vs in itertools.product(grid1, repeat=4): feed(vs)
    feed(tri * 2); feed(tri[::-1] * 2); feed(tri + tri[::-1])
    bad, und, n = {}, {}, 0
    for (ys, os), vs in reps.items():
        want = wind(ys, os) != 0
        A = [arg('h%d' % i) for i in range(len(ys))]
        for xs in (None, tuple(sgn(v[0]) for v in vs)):
            B = [arg('w%d' % i) for i in range(len(ys))]
            def coord(c, s, a): return c if s == 0 else op('Add' if s > 0 else 'Sub', c, a)
            P = [arr([arg('x%d' % i) if xs is None else coord(arg('cx'), xs[i], B[i]), coord(arg('cy'), ys[i], A[i])]) for i in range(len(ys))]
            pts = dict(enumerate(P)); pts['c'] = C
            table = {(i, (i + 1) % len(ys), 'c'): os[i] for i in range(len(ys)) if len(ys) > 2 or i == 0}
            me = build(m, 'PolygonBoundary', {'vertices': arr(P)})
            if me is None: return ctx.skip('winding', 'polygon', 'fields changed')
            case = Case(A + B)
            outs = explore(ctx, f, {f.arg_names.get(1): me, f.arg_names.get(2): C}, table, pts, case)
            inst = 'vertices %s, turns %s' % (''.join('-0+'[y + 1] for y in ys), ''.join('-0+'[o + 1] for o in os))
            if outs is None: und[inst] = 'budget'; break
            und.pop(inst, None)
            again = False
            for fs_, r in outs:
                v = r.a[3][0] if is_adt(r, RES, 'Ok') else None
                c = None if v is None else case.cond(v)
                if c is None: und[inst] = show(r, 3)[:80]
                elif c != want:
                    if fs_: und[inst] = showf(fs_, 4)[:80]; again = True
                    else: bad[inst] = (want, wind(ys, os))
            if not again or inst in bad: break
        n += 1
        ctx.count('polygon cases')
        if inst in bad:
            ctx.ob('winding', '%d vertices' % len(ys), False, f.span, 'a point around which %s (levels and turns of the edges relative to it) is reported as %s' % (inst, 'outside' if want else 'inside'))
        elif inst in und: ctx.skip('winding', inst, und[inst])
        else: ctx.ob('winding', inst)

def wind(ys, os):
    n, w = len(ys), 0
    for i in range(n):
        a, b = ys[i], ys[(i + 1) % n]
        if a <= 0 < b and os[i] > 0: w += 1
        if b <= 0 < a and os[i] < 0: w -= 1
    return w

def turns(ctx):
    m = ctx.m
    fs = [g for g in m.fns.values() if g.name == 'orientation' and g.nargs == 3 and g.self_adt() is None]
    if len(fs) != 1: return ctx.anchor_missing('orientation')
    f = fs[0]
    P = {k: arr([arg(k + 'x'), arg(k + 'y')]) for k in 'pqr'}
    for o in (1, -1, 0):
        table = {('p', 'q', 'r'): o}
        used = []
        def extra(I, st, nm, v):
            if nm == 'orient2d' and len(v) == 3:
                t = orient_value(table, P, [strip_coord(x) for x in v])
                plain = [elem(strip_coord(x), ci(i)) for x in v for i in (0, 1)]
                used.append('mixed' if t is None and all(any(c is y for k in P for y in P[k].a[0]) for c in plain) else t)
                return [(st, arg('DET'))] if t is not None else None
        t = arg('DET'); pos, zero = ([t], []) if o else ([], [t])
        class Sg(Case):
            def sign(self, x):
                s = Case.sign(self, subst(x, {t: op('Sub', cf(0), t)})) if o < 0 else Case.sign(self, x)
                return s
        outs = explore(ctx, f, {f.arg_names.get(i + 1): P[k] for i, k in enumerate('pqr')}, table, P, Sg(pos, zero), extra)
        inst = NAMES[o]
        if outs is None: ctx.skip('turn', inst, 'budget'); continue
        for s, r in outs:
            if r.k != 'adt' or not used: ctx.skip('turn', inst, show(r, 3)[:80] + showf(s, 3)[:60]); continue
            if 'mixed' in used: ctx.ob('turn', inst, False, f.span, 'the predicate is asked about points that mix coordinates of different points'); continue
            if None in used: ctx.skip('turn', inst, 'points passed to the predicate not recognised'); continue
            if s: ctx.skip('turn', inst, showf(s, 3)[:80]); continue
            d = used[0]
            ctx.ob('turn', inst, r.a[1] == NAMES[o * (1 if d == o else -1)], f.span, 'three points whose exact predicate is %s are reported as %s' % (['zero', 'positive', 'negative'][d], r.a[1]))

def segments(ctx):
    m = ctx.m
    fs = ctx.m.method('Line', 'intersects')
    if len(fs) != 1: return ctx.anchor_missing('Line::intersects')
    f = fs[0]
    P = {k: arr([arg(k + 'x'), arg(k + 'y')]) for k in ('s', 'e', 'S', 'E')}
    me, ot = (build(m, 'Line', {'start': P[a], 'end': P[b]}) for a, b in ('se', 'SE'))
    if me is None: return ctx.skip('segments', 'line', 'fields changed')
    grid = [(x, y) for x in range(4) for y in range(3)]
    cases = {}
    for s, e in itertools.product(grid, repeat=2):
        if s == e or s[0] + s[1] > 2: continue
        for S, E in itertools.product(grid, repeat=2):
            if S == E: continue
            box = all(max(min(s[i], e[i]), min(S[i], E[i])) <= min(max(s[i], e[i]), max(S[i], E[i])) for i in (0, 1))
            cases.setdefault((turn(s, e, S), turn(s, e, E), turn(S, E, s), turn(S, E, e), box), (s, e, S, E))
    for (a, b, c, d, box), rep in sorted(cases.items()):
        table = {('s', 'e', 'S'): a, ('s', 'e', 'E'): b, ('S', 'E', 's'): c, ('S', 'E', 'e'): d}
        want = box and not (a == b != 0) and not (c == d != 0) and not (a == b == c == d == 0)
        def extra(I, st, nm, v):
            if nm == 'intersects' and len(v) == 3: return [(st, TRUE if box else FALSE)]
            if nm == 'bounding_rect': return [(st, mk('call', 'rect', tuple(v)))]
        outs = explore(ctx, f, {f.arg_names.get(1): me, f.arg_names.get(2): ot}, table, P, None, extra)
        inst = 'turns %s %s' % (''.join('-0+'[x + 1] for x in (a, b, c, d)), 'boxes overlap' if box else 'boxes apart')
        if outs is None: ctx.skip('segments', inst, 'budget'); continue
        for s, r in outs:
            if r not in (TRUE, FALSE) or s: ctx.skip('segments', inst, show(r, 3)[:80] + showf(s, 3)[:60]); continue
            ctx.ob('segments', inst, (r is TRUE) == want, f.span, 'segments with %s (first: %s, second: %s) are reported as %s' % (inst, 'ends of the second seen from the first', 'ends of the first seen from the second', 'crossing' if r is TRUE else 'not crossing'))
        ctx.count('segment cases')
    for g in ctx.m.method('Line', 'bounding_rect'):
        outs = explore(ctx, g, {g.arg_names.get(1): me}, {}, P, None, lambda I, st, nm, v: [(st, mk('call', 'box', tuple(v)))] if nm == 'new' and len(v) == 2 else None)
        for s, r in outs or []:
            if r.k == 'call' and r.a[0] == 'box':
                rs = roots(r); ctx.ob('segments', 'box of a segment', all(x in rs for k in 'se' for x in P[k].a[0]), g.span, 'the box of a segment is made of %s' % show(r, 4)[:100])
            else: ctx.skip('segments', 'box of a segment', show(r, 3)[:80])
