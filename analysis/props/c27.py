"""C27 curve tessellations: evaluation and random probes are replaced by values of a table (curves given as functions of the parameter, probes anywhere they may be),
and the list that comes out is compared with the curve: start to end, in order, every vertex on the curve, refined where it bends, joints once."""
from termlab import *
import math

def check(ctx):
    ctx.rule('along', 'the vertices are points of the curve at ascending parameters, from the start of the domain to its end')
    ctx.rule('fine', 'the curve stays near the polyline, and a smaller tolerance does not give fewer vertices')
    ctx.rule('joined', 'a compound curve gives the vertices of its spans in order, every joint once, and closes if the curve does')
    ctx.rule('trimming', 'a tessellated trimming curve runs from its start to its end, with point and normal of the surface at every uv')
    ctx.assumptions.append('evaluation and random numbers are replaced by values; that evaluation is right is decided under C30')
    curves(ctx); polylines(ctx); compounds(ctx); trimming(ctx)

SHAPES = {
    'an arc': lambda t: (math.cos(2 * t), math.sin(2 * t), .3 * t),
    'a closed curve': lambda t: (math.cos(math.tau * t), math.sin(math.tau * t), 0.),
    'a straight curve': lambda t: (3. * t, 1. + t, -t),
    'a curve with a corner': lambda t: (t, abs(t - .3), 0.),
    'a wave': lambda t: (3 * t, .4 * math.sin(9 * t), .2 * math.cos(5 * t)),
    'a point': lambda t: (1., 2., 3.),
}
class Eval:
    """a curve as a function of the parameter; remembers where it was asked"""
    def __init__(s, fn, lo, hi, dim): s.fn, s.lo, s.hi, s.dim, s.at = fn, lo, hi, dim, {}
    def point(s, u):
        p = [float('%.14g' % x) for x in s.fn((u - s.lo) / (s.hi - s.lo))[:s.dim]]
        s.at.setdefault(tuple(p), set()).add(u)
        return p
    def tangent(s, u):
        h = (s.hi - s.lo) * 1e-6
        a, b = s.fn((u - h - s.lo) / (s.hi - s.lo)), s.fn((u + h - s.lo) / (s.hi - s.lo))
        return [(y - x) / (2 * h) for x, y in zip(a, b)][:s.dim]
    def order(s, pts):
        """parameters of a list of vertices, or what is wrong with it"""
        us, last = [], -math.inf
        for i, p in enumerate(pts):
            c = s.at.get(tuple(p))
            if c is None: return 'has a vertex %s that is not a point of the curve' % (tuple(p),)
            c = [u for u in c if u >= last] if i < len(pts) - 1 else [u for u in [max(c)] if u >= last]
            if not c: return 'runs back and forth along the curve'
            last = min(c); us.append(last)
            if i and list(p) == list(pts[i - 1]) and len(pts) > 2 and len(s.at) > 1: return 'has a vertex twice'
        if not us or abs(us[0] - s.lo) > 1e-12 * max(1, abs(s.lo)): return 'does not start at the start of the curve'
        if abs(us[-1] - s.hi) > 1e-12 * max(1, abs(s.hi)) or len(us) < 2: return 'does not end at the end of the curve'
        return us
def asked(ev, rnd, dim):
    def over(I, st, name, info, a):
        nm = info['name']
        if nm == 'random' and 'rand' in name: return [(st, cf(rnd))]
        if nm in ('rng', 'thread_rng') and not a: return [(st, arg('RNG'))]
        if nm == 'dim' and not a: return [(st, ci(dim))]
        if nm in ('point_at', 'point_tangent_at', 'tangent_at') and len(a) == 2:
            u = numeric(I.value(st, a[1]))
            if u is None: return None
            if not ev.lo - 1e-12 <= u <= ev.hi + 1e-12: return [(st, mk('call', 'outside', (cf(u),)))]
            p, t = arr([cf(x) for x in ev.point(float(u))]), arr([cf(x) for x in ev.tangent(float(u))])
            return [(st, p if nm == 'point_at' else t if nm == 'tangent_at' else tup(p, t))]
        return None
    return over
def listed_points(r):
    r = r if r.k == 'arr' else None
    if r is None: return None
    out = []
    for x in r.a[0]:
        try: v = values(x, {})
        except Unknown: return None
        out.append(v)
    return out
def impl_of(ctx, nm, ty):
    fs = [g for g in ctx.m.fns.values() if g.kind != 'Closure' and g.name == nm and (g.self_adt() or '').split('::')[-1] == ty and g.blocks]
    return fs[0] if len(fs) == 1 else ctx.anchor_missing('%s of %s' % (nm, ty))
def one(ctx, rule, inst, f, args, D, more, t=40):
    outs = summary(ctx, f, args, D, more=more, t=t, unroll=400, case=Witness({}), rec=24)
    if outs is None: ctx.skip(rule, inst, 'not interpreted'); return None
    outs = [o for o in outs if holds(o[0], {}) is not False]
    if not outs: ctx.ob(rule, inst, False, f.span, '%s panics' % inst); return None
    if len(outs) != 1 or holds(outs[0][0], {}) is None: ctx.skip(rule, inst, showf(outs[0][0], 3)[:100]); return None
    return outs[0][2]
DOMAINS = [(0., 1.), (-3., 5.), (2., 2. + 4e-9), (0., 6e-9)]
def spec_for(p, lo, hi): return (p, [lo] * (p + 1) + [lo + (hi - lo) * .5] + [hi] * (p + 1))
def curves(ctx):
    f = impl_of(ctx, 'tessellate', 'NurbsCurve')
    if not f: return
    for name, fn in SHAPES.items():
        for lo, hi in DOMAINS:
            tiny = hi - lo < 1e-8
            for dim in (2, 3):
                if tiny and (dim == 2 or name not in ('an arc', 'a wave')): continue
                spec = spec_for(3 if dim == 3 else 2, lo, hi)
                c = ncurve(ctx.m, spec, 'P', dim + 1)
                if c is None: ctx.skip('along', name, 'fields changed'); continue
                counts = []
                for tol in (None, 1e-4) if not tiny else (None,):
                    for rnd in (0., .45, .999):
                        ev = Eval(fn, lo, hi, dim)
                        inst = 'tessellation of %s over (%g, %g) in %d dimensions%s, probe at %g' % (name, lo, hi, dim, '' if tol is None else ', tolerance %g' % tol, .5 + .2 * rnd)
                        r = one(ctx, 'along', inst, f, [c, NONE if tol is None else some(cf(tol))], dim + 1, asked(ev, rnd, dim))
                        if r is None: continue
                        pts = listed_points(r)
                        if pts is None: ctx.skip('along', inst, show(r, 4)[:100]); continue
                        us = ev.order(pts)
                        ctx.ob('along', inst, not isinstance(us, str), f.span, '%s %s' % (inst, us)); ctx.count('tessellations')
                        if isinstance(us, str) or tiny: continue
                        counts.append((tol or 1e-3, rnd, len(us)))
                        far = max(max(away(ev, a, b) for a, b in zip(us, us[1:])), 0.)
                        ctx.ob('fine', inst, far < .25 * (1 if tol is None else .4), f.span, '%s leaves the curve by %g' % (inst, far))
                for rnd in (0., .45, .999):
                    n = {t: k for t, r, k in counts if r == rnd}
                    if len(n) == 2: ctx.ob('fine', 'vertices of %s over (%g, %g) in %d dimensions, probe %g' % (name, lo, hi, dim, rnd), n[1e-4] >= n[1e-3], f.span, '%s has %d vertices with tolerance 1e-4 and %d with 1e-3' % (name, n[1e-4], n[1e-3]))
def away(ev, a, b):
    g = lambda u: [float(x) for x in ev.fn((u - ev.lo) / (ev.hi - ev.lo))[:ev.dim]]
    p, q, worst = g(a), g(b), 0.
    d = [y - x for x, y in zip(p, q)]
    n2 = sum(x * x for x in d)
    for i in range(1, 16):
        x = g(a + (b - a) * i / 16)
        w = [y - z for y, z in zip(x, p)]
        t = min(max(sum(s * v for s, v in zip(w, d)) / n2, 0.), 1.) if n2 > 1e-24 else 0.
        worst = max(worst, nrm([s - t * v for s, v in zip(w, d)]))
    return worst

def polylines(ctx):
    """curves of degree one: their corners"""
    f = impl_of(ctx, 'tessellate', 'NurbsCurve')
    if not f: return
    for k, ks in enumerate(([0., 0., 1., 1.], [0., 0., .2, .7, 1., 1.], [-1., -1., 0., 5., 6., 6.])):
        spec = (1, ks)
        c = ncurve(ctx.m, spec, 'P', 4)
        if c is None: ctx.skip('along', 'polyline', 'fields changed'); continue
        env = penv(spec, 4, {}, k)
        cps = profile(spec, 4)(env)
        want = [[x / q[3] for x in q[:3]] for q in cps]
        def test(r, e):
            if r.k != 'arr': return None
            try: got = [values(x, e) for x in r.a[0]]
            except Unknown: return None
            return '' if len(got) == len(want) and all(near(a, b) for a, b in zip(got, want)) else 'does not consist of its corners'
        for o in (NONE, some(cf(.1))): verdicts(ctx, 'along', 'tessellation of a polyline of %d corners' % len(want), f, [c, o], 4, [env], test)

def compounds(ctx):
    f = impl_of(ctx, 'tessellate', 'CompoundCurve')
    if not f: return
    for n in (1, 2, 3):
        for closed in (False, True):
            for sizes in ((2, 2, 2), (3, 2, 4), (2, 5, 3)):
                spans = arr([mk('call', 'span', (ci(i),)) for i in range(n)])
                cc = build(ctx.m, 'CompoundCurve', {'spans': spans})
                inst = 'tessellation of %s compound curve of %d spans with %s vertices' % ('a closed' if closed else 'an open', n, ', '.join(map(str, sizes[:n])))
                if cc is None: ctx.skip('joined', inst, 'fields changed'); continue
                knot = lambda i: [float(i % n) if closed else float(i), 0.]
                lists = [[knot(i)] + [[i + j * .1, 1.] for j in range(1, sizes[i] - 1)] + [knot(i + 1)] for i in range(n)]
                tols = []
                def more(I, st, name, info, a):
                    nm = info['name']
                    if nm == 'is_closed': return [(st, TRUE if closed else FALSE)]
                    if nm == 'tessellate' and a:
                        v = I.value(st, a[0])
                        if v.k == 'call' and v.a[0] == 'span':
                            tols.append(I.value(st, a[1]))
                            return [(st, arr([arr([cf(x) for x in p]) for p in lists[v.a[1][0].a[1]]]))]
                    return None
                o = some(cf(.125))
                r = one(ctx, 'joined', inst, f, [cc, o], 3, more)
                if r is None: continue
                got = listed_points(r)
                if got is None: ctx.skip('joined', inst, show(r, 4)[:100]); continue
                want = [p for l in lists for p in l[:-1]] + [lists[-1][-1]]
                bad_ = '' if got == want else 'has %d vertices instead of %d' % (len(got), len(want)) if len(got) != len(want) else 'does not follow its spans'
                if not bad_ and any(t is not o and show(t, 5) != show(o, 5) for t in tols): bad_ = 'does not use its tolerance for every span'
                ctx.ob('joined', inst, not bad_, f.span, '%s %s' % (inst, bad_)); ctx.count('compound curves')

def trimming(ctx):
    fs = ctx.m.free('tessellate_uv_curve_adaptive')
    if len(fs) != 1: return ctx.anchor_missing('tessellate_uv_curve_adaptive')
    f = fs[0]
    flat = lambda u, v: (0., 0., 1.)
    def bent(u, v):
        a = 1.3 * u
        return (math.sin(a), 0., math.cos(a))
    for name in ('an arc', 'a closed curve', 'a straight curve', 'a wave'):
        for lo, hi in DOMAINS[:3]:
            for word, normal in (('flat', flat), ('bent', bent)):
                for deg in (2, 1):
                    if deg == 1 and name != 'a straight curve' or hi - lo < 1e-8 and (word == 'bent' or deg == 1): continue
                    spec = spec_for(deg, lo, hi) if deg > 1 else (1, [lo, lo, lo + (hi - lo) * .25, lo + (hi - lo) * .6, hi, hi])
                    c = ncurve(ctx.m, spec, 'P', 3)
                    counts = {}
                    for tol in (.05, .01):
                        ev = Eval(SHAPES[name], lo, hi, 2)
                        base = asked(ev, .5, 2)
                        def more(I, st, name_, info, a):
                            nm = info['name']
                            if nm in ('point_at', 'normal_at') and len(a) == 3 and I.value(st, a[0]) is SURF:
                                u, v = [numeric(I.value(st, x)) for x in a[1:]]
                                if u is None or v is None: return None
                                return [(st, arr([cf(float(u)), cf(float(v)), cf(u * v)]) if nm == 'point_at' else arr([cf(x) for x in normal(u, v)]))]
                            return base(I, st, name_, info, a)
                        inst = 'tessellation of a trimming curve: %s of degree %d over (%g, %g) on a %s surface, tolerance %g' % (name, deg, lo, hi, word, tol)
                        r = one(ctx, 'trimming', inst, f, [c, SURF, cf(tol)], 3, more)
                        if r is None: continue
                        got = []
                        for x in r.a[0] if r.k == 'arr' else [None]:
                            try: got.append([values(fld(x, k), {}) for k in ('uv', 'point', 'normal')] if x is not None and x.k == 'adt' and {'uv', 'point', 'normal'} <= set(x.a[2]) else None)
                            except Unknown: got.append(None)
                        if None in got: ctx.skip('trimming', inst, show(r, 4)[:100]); continue
                        us = ev.order([g[0] for g in got])
                        d = us if isinstance(us, str) else ''
                        for uv, p, n in got:
                            if not d and not near(p, [uv[0], uv[1], uv[0] * uv[1]]): d = 'has a vertex that is not at its uv on the surface'
                            if not d and not near(n, list(normal(*uv))): d = 'has a normal that is not that of its uv'
                        if not d and deg == 1 and not all(any(abs(k - u) < 1e-12 for u in us) for k in spec[1]): d = 'leaves out a corner'
                        if not d and hi - lo > 1e-8 and deg > 1 and (far := max(away(ev, a, b) for a, b in zip(us, us[1:]))) > .3: d = 'leaves the curve by %g' % far
                        ctx.ob('trimming', inst, not d, f.span, '%s %s' % (inst, d)); ctx.count('trimming curves')
                        if not d: counts[tol] = len(us)
                    if len(counts) == 2: ctx.ob('trimming', 'vertices of %s of degree %d over (%g, %g) on a %s surface' % (name, deg, lo, hi, word), counts[.01] >= counts[.05], f.span, '%s has fewer vertices with the smaller tolerance' % name)
SURF = arg('SURFACE')
