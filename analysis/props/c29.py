"""C29 crossings: the points of the curves around an intersection are those of straight pieces given per case (angle, side, speed, distance), and the classification has
to tell a crossing from a touch and from a tangency, whichever curve comes first. Nearest points of two lines are terms in symbolic rays (identity testing)."""
from termlab import *
from props.c28 import number, inner

def check(ctx):
    ctx.rule('crossing', 'curves that cross at a clear angle are a plain crossing; curves that stay apart or run along each other are not')
    ctx.rule('rays', 'two lines that are not parallel have their nearest points reported, each with its parameter and on its own line; parallel ones none')
    ctx.assumptions.append('around an intersection the curves are straight pieces; angles under 10 degrees are not decided, except those under 1')
    crossings(ctx); rays(ctx)

def turn(v, d):
    c, s = math.cos(math.radians(d)), math.sin(math.radians(d))
    return [c * v[0] - s * v[1], s * v[0] + c * v[1]]
def crossings(ctx):
    m = ctx.m
    fs = [g for g in m.fns.values() if g.kind != 'Closure' and g.name == 'new' and (g.self_adt() or '').split('::')[-1] == 'Degeneracy' and g.blocks]
    if len(fs) != 1: return ctx.anchor_missing('Degeneracy::new')
    f = fs[0]
    meet = [3., -1.]
    for ua, ub in ((.3, 7.), (-2., .25)):
        for base in (20., 135., 250.):
            for ang in (10., 35., 90., 140., 170., 200., 270., 340., .4, 180.6):
                for sa, sb in ((1., 1.), (20., .5), (.2, 60.)):
                    for gap in (None, 'a', 'b'):
                        if gap and (sa, ang in (10., 170., .4, 180.6)) != (1., False): continue
                        da, db = [sa * x for x in turn([1., 0.], base)], [sb * x for x in turn([1., 0.], base + ang)]
                        # one curve passes by the other: its middle lies one and a half pieces away, across the first one's end
                        A, B = list(meet), list(meet)
                        if gap == 'a': A = axpy((1, meet), (3e-4, da))
                        if gap == 'b': B = axpy((1, meet), (3e-4, db))
                        at = {'A': lambda u: axpy((1, A), (u - ua, da)), 'B': lambda u: axpy((1, B), (u - ub, db))}
                        asked = []
                        def more(I, st, name, info, a):
                            nm = info['name']
                            v = [I.value(st, x) for x in a]
                            if nm in ('a_parameter', 'b_parameter') and len(v) == 1 and v[0].k == 'arg' and v[0].a[0] == 'IT': return [(st, cf(ua if nm[0] == 'a' else ub))]
                            if nm in ('point_at', 'point_tangent_at', 'tangent_at') and len(v) == 2 and v[0].k == 'arg' and v[0].a[0] in at:
                                u = numeric(v[1])
                                if u is None: return None
                                asked.append(u)
                                p, d = arr([cf(x) for x in at[v[0].a[0]](float(u))]), arr([cf(x) for x in (da if v[0].a[0] == 'A' else db)])
                                return [(st, p if nm == 'point_at' else d if nm == 'tangent_at' else tup(p, d))]
                            if nm == 'orient2d' and len(v) == 3:
                                P = []
                                for x in v:
                                    if x.k != 'adt' or len(x.a[3]) != 2: return None
                                    P.append([numeric(fld(x, c)) for c in 'xy'])
                                if any(None in p for p in P): return None
                                P = [[Q(float(c)) for c in p] for p in P]
                                d = (P[0][0] - P[2][0]) * (P[1][1] - P[2][1]) - (P[0][1] - P[2][1]) * (P[1][0] - P[2][0])
                                return [(st, cf(float((d > 0) - (d < 0))))]
                            return None
                        apart = bool(gap)
                        kind = 'apart' if apart else 'along' if ang in (.4, 180.6) else 'crossing'
                        def test(r, e):
                            if r.k != 'adt' or r.a[1] not in ('Angle', 'LineIntersection', 'None'): return None
                            if kind == 'crossing': return '' if r.a[1] == 'None' else 'is taken for %s' % ('a tangency' if r.a[1] == 'Angle' else 'a touch')
                            if kind == 'along': return '' if r.a[1] != 'None' else 'is taken for a crossing'
                            # how far along the curves are looked at is not fixed: only what is farther away than that counts
                            if max(abs(u - (ua if abs(u - ua) < abs(u - ub) else ub)) for u in asked) > 1.4e-4: return ''
                            return '' if r.a[1] != 'None' else 'is taken for a crossing'
                        word = {'crossing': 'curves crossing', 'along': 'curves running along each other', 'apart': 'curves passing by each other'}[kind]
                        verdicts(ctx, 'crossing', '%s at %g degrees (from %g), speeds %g and %g, parameters %g and %g%s' % (word, ang, base, sa, sb, ua, ub, ', %s shifted' % gap if gap else ''), f, [arg('IT'), arg('A'), arg('B')], 2, [{}], test, more=more)

def rays(ctx):
    m = ctx.m
    f = public(ctx, 'Ray', 'find_intersection')
    if not f: return
    ray = lambda t: build(m, 'Ray', {'origin': arr(symbols(t + 'o', 3)), 'direction': arr(symbols(t + 'd', 3))})
    if ray('a') is None: return ctx.skip('rays', 'rays', 'fields changed')
    dot = lambda x, y: sum(p * q for p, q in zip(x, y))
    for k in range(8):
        r = random.Random(k)
        v = lambda s=1.: [s * r.uniform(-1, 1) for _ in range(3)]
        ao, ad, bo, bd = v(5), v(1 + 3 * (k % 3)), v(5), v(1 + 7 * (k % 2))
        if k in (2, 3): bo = axpy((1, ao), (1.7, ad), (-.6, bd))       # they meet
        if k in (4, 5): bd = [0., -ad[2], ad[1]]                       # at right angles
        par = k in (6, 7)
        if par: bd = [x * (2. if k == 6 else -.5) for x in ad]
        env = {t + str(i): x for t, xs in (('ao', ao), ('ad', ad), ('bo', bo), ('bd', bd)) for i, x in enumerate(xs)}
        def test(x, e):
            if x.k != 'adt' or x.a[1] not in ('Some', 'None'): return None
            if par: return '' if x.a[1] == 'None' else 'is reported although they are parallel'
            if x.a[1] == 'None': return 'is missing'
            x = x.a[3][0]
            if x.k != 'adt' or not {'intersection0', 'intersection1'} <= set(x.a[2]): return None
            try: (p, s), (q, t) = [values(fld(x, n), e) for n in ('intersection0', 'intersection1')]
            except Unknown: return None
            if not near(p, axpy((1, ao), (s, ad)), 1e-6) or not near(q, axpy((1, bo), (t, bd)), 1e-6): return 'is not at its parameter'
            d = axpy((1, p), (-1, q))
            return '' if abs(dot(d, ad)) < 1e-6 and abs(dot(d, bd)) < 1e-6 else 'is not the nearest'
        verdicts(ctx, 'rays', 'nearest points of two %slines #%d' % ('parallel ' if par else '', k), f, [ray('a'), ray('b')], 3, [env], test)
