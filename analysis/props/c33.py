"""C33 arc length: the speed of the curve is replaced by a known function of the parameter, so that every length is known; the control points stay symbols.
Quadrature is replaced by an exact one that asks the code's own integrand. What is decided is that the right speed is summed over the right range, and that
positions and divisions lie where the length is the one asked for."""
from asklab import *
from refinelab import ok_of
import math

NODES = [(-.9602898564975363, .1012285362903763), (-.7966664774136267, .2223810344533745), (-.525532409916329, .3137066458778873), (-.1834346424956498, .362683783378362)]
NODES = NODES + [(-x, w) for x, w in NODES]
class Speed:
    """speed a polynomial of the parameter over the domain of the curve, total length `scale` times a factor"""
    def __init__(s, lo, hi, scale, kind): s.lo, s.hi, s.scale, s.kind = lo, hi, scale, kind
    def prim(s, t): return {0: t, 1: t / 2 + t * t / 2, 2: 3 * t - 4.5 * t * t + 2.5 * t ** 3}[s.kind]
    def at(s, u):
        t = (u - s.lo) / (s.hi - s.lo)
        return s.scale / (s.hi - s.lo) * {0: 1., 1: .5 + t, 2: 3 - 9 * t + 7.5 * t * t}[s.kind]
    def length(s, u): return s.scale * s.prim(min(max((u - s.lo) / (s.hi - s.lo), 0.), 1.))
    @property
    def total(s): return s.length(s.hi)
def known(sp, D):
    def over(I, st, name, info, a):
        nm = info['name']
        if nm in ('rational_derivatives', 'tangent_at') and len(a) >= 2:
            c, u = curve_parts(I.value(st, a[0])), numeric(I.value(st, a[1]))
            if c is None or u is None: return None
            lo, hi = domain(c[0], c[1])
            if not (lo - 1e-9 <= u <= hi + 1e-9): return [(st, mk('call', 'outside', (cf(u),)))]
            vel = mk('call', 'velocity', (cf(float(u)),))
            return [(st, vel if nm == 'tangent_at' else arr([mk('call', 'position', (cf(float(u)),)), vel]))]
        if nm in ('norm', 'magnitude', 'norm_squared', 'magnitude_squared') and a:
            v = I.value(st, a[0])
            if v.k == 'call' and v.a[0] == 'velocity':
                x = sp.at(v.a[1][0].a[0] if not numeric(v.a[1][0]) and numeric(v.a[1][0]) != 0 else numeric(v.a[1][0]))
                return [(st, cf(x * x if 'squared' in nm else x))]
        if nm == 'integrate' and len(a) == 4:
            l, r = numeric(I.value(st, a[1])), numeric(I.value(st, a[2]))
            if l is None or r is None: return None
            live = [(st, 0.)]
            for x, w in NODES:
                u, nxt = (l + r) / 2 + x * (r - l) / 2, []
                for s, acc in live:
                    for s2, y in I.call_value(s, a[3], [cf(u)], ('quadrature', len(NODES))):
                        y = numeric(I.value(s2, y))
                        if y is None: return None
                        nxt.append((s2, acc + w * float(y) * (r - l) / 2))
                live = nxt
            return [(s, cf(acc)) for s, acc in live]
        if nm == 'new' and 'GaussLegendre' in name: return [(st, ok(mk('call', 'gauss', ())))]
        return None
    return over

SHAPES = [(1, [0., 0., 1., 1.]), (3, [0., 0., 0., 0., 2., 2., 2., 2.]), (2, [1., 1., 1., 1.5, 3., 3., 3.]), (1, [-2., -2., 0., 1., 1.]), (3, [-1., -1., -1., -1., 0., 0., 1., 2., 2., 2., 2.]), (2, [0., 1., 2., 3., 5., 6., 7.])]
def check(ctx):
    ctx.rule('length', 'the length is the speed summed over the whole domain, once')
    ctx.rule('position', 'the parameter at a length is where the curve has that length, up to the tolerance')
    ctx.rule('division', 'dividing gives the start and every multiple of the length up to the end, in order, each with its parameter')
    ctx.assumptions.append('quadrature is exact: how closely Gauss-Legendre nodes approximate the speed of a curve is not decided')
    fl, fp, fd, fc = [public(ctx, 'NurbsCurve', n) for n in ('try_length', 'try_parameter_at_length', 'try_divide_by_length', 'try_divide_by_count')]
    m = ctx.m
    def run(rule, inst, f, args, sp, test, t=40):
        outs = evaluate(ctx, f, dict(zip(names(f), args)), 3, more=known(sp, 3), t=t, unroll=400)
        if outs is None: return ctx.skip(rule, inst, 'not interpreted')
        if not outs: return ctx.ob(rule, inst, False, f.span, '%s panics' % inst)
        for fs, _, r in outs:
            if fs: ctx.skip(rule, inst, showf(fs, 3)[:90]); continue
            v = test(ok_of(r))
            if v is None: ctx.skip(rule, inst, show(r, 5)[:120]); continue
            ctx.ob(rule, inst, v == '', f.span, '%s %s' % (inst, v)); ctx.count('lengths')
    for k, spec in enumerate(SHAPES):
        lo, hi = domain(*spec)
        c = ncurve(m, spec, 'P', 3)
        if c is None: ctx.skip('length', label(spec, k), 'fields changed'); continue
        for scale, kind in ((1., 0), (7., 1), (50., 2), (1e-3, 1), (1e-7, 0)) if k in (2, 4) else ((1., 1), (200., 0)):
            sp = Speed(lo, hi, scale, kind)
            at = '%s, speed #%d, length %g' % (label(spec, k), kind, sp.total)
            if fl: run('length', 'length: ' + at, fl, [c], sp, lambda r: None if r is None else 'gives an error' if r == 'err' else None if numeric(r) is None else '' if abs(numeric(r) - sp.total) < 1e-9 * max(1, sp.total) else 'is %g' % numeric(r))
            if fp:
                for part, tol in ((0., None), (.2, None), (.5, 1e-6), (.83, .05), (1., None)):
                    want = sp.total * part
                    lim = (1e-4 if tol is None else tol) + 1e-9
                    def there(r):
                        if r == 'err': return 'gives an error'
                        u = None if r is None else numeric(r)
                        if u is None: return None
                        if not lo - 1e-12 <= u <= hi + 1e-12: return 'is %g, outside of the domain' % u
                        return '' if abs(sp.length(u) - want) <= lim else 'is %g, where the length is %g' % (u, sp.length(u))
                    if part == 1. : want = want * (1 - 1e-13)
                    run('position', 'parameter at length %g%s: %s' % (want, '' if tol is None else ', tolerance %g' % tol, at), fp, [c, cf(want), NONE if tol is None else some(cf(tol))], sp, there)
            def divided(n, step):
                def test(r):
                    if r == 'err': return 'gives an error'
                    if r is None or r.k != 'arr': return None
                    got = []
                    for x in r.a[0]:
                        if x.k != 'adt' or not {'parameter', 'length'} <= set(x.a[2]): return None
                        got.append((numeric(fld(x, 'parameter')), numeric(fld(x, 'length'))))
                    if any(None in g for g in got): return None
                    if len(got) != n + 1: return 'gives %d positions instead of %d' % (len(got), n + 1)
                    for i, (u, l) in enumerate(got):
                        if abs(l - i * step) > 1e-6 * sp.total: return 'reports length %g at position %d instead of %g' % (l, i, i * step)
                        if abs(sp.length(u) - i * step) > .01 * step: return 'puts position %d at %g, where the length is %g instead of %g' % (i, u, sp.length(u), i * step)
                    return ''
                return test
            if fd:
                for part in (.3, .125):
                    step = sp.total * part
                    run('division', 'division by length %g: %s' % (step, at), fd, [c, cf(step)], sp, divided(int(1 / part + 1e-9), step), 60)
            if fc:
                for n in (2, 5): run('division', 'division into %d: %s' % (n, at), fc, [c, ci(n)], sp, divided(n, sp.total / n), 60)
