"""C13 guards of constructors and operations: decision tables over counts and positions.  Invalid data must give an error on every path and leave the
object as it was; valid data must not be rejected, and what is built has counts that fit its degree."""
from curvelab import *
from signs import *
import itertools, math

def check(ctx):
    ctx.rule('reject', 'data that cannot support the operation gives an error')
    ctx.rule('accept', 'data that can support the operation is not rejected')
    ctx.rule('kept', 'what is built has the degree, the control points and the knots it was given, the knots in ascending order; counts of points and knots fit the degree')
    ctx.rule('untouched', 'an operation that gives an error leaves the object as it was')
    ctx.assumptions.append('NaN parameters are not considered; an error of a linear solver counts neither way')
    try_new(ctx); shapes(ctx); counts(ctx); arcs(ctx); lengths(ctx); add_knot(ctx); remove_knot(ctx); elevate(ctx); trims(ctx); lofts(ctx)

def sole(x): return x[0] if isinstance(x, list) and len(x) == 1 else None if isinstance(x, list) else x
def meth(m, a, n): return sole(m.method(a, n))
def free(m, n): return sole(m.free(n))
SOLVER = {'solve', 'solve_mut', 'try_inverse', 'lu', 'norm', 'normalize', 'from_f64', 'from_usize', 'to_usize', 'find_intersection'}
def P(n): return [arg('P%d' % i) for i in range(n)]
def explore(ctx, f, args, ov=None, inl=None, opq=None, case=None, unroll=120, t=20):
    I = engine(ctx, inline=inl or (lambda g: True if g.span.startswith(('src/curve', 'src/knot', 'src/misc')) else None), opaque=opq or (lambda g: None))
    I.unroll, I.budget, I.t_end, I.exact, I.cap = unroll, 300000, time.time() + t, True, 600
    def over(I, st, name, info, a):
        e = eps_over(info['name'], a)
        if e is not None: return [(st, e)]
        if ov: return ov(I, st, info['name'], a, [I.value(st, x) for x in a])
    I.override = over
    with deciding(case or Case()):
        try: return [(s, s.f, I.value(s, r)) for s, r in I.auto(f, args)]
        except Budget: return None
def verdict(f, r):
    """'err', 'ok' when definite, 'maybe ok' when only the success of a solver is open, else None"""
    k = 'err' if is_adt(r, RES, 'Err') else 'ok' if is_adt(r, RES, 'Ok') else None
    if k is None: return None
    if not f: return k
    for c, p in f:
        names = {x.a[0].split('::')[-1] for x in find(c, lambda x: x.k == 'call')}
        if not names & SOLVER: return None
    return 'maybe ' + k
def judge(ctx, inst, f, outs, valid, key=None):
    """True when decided"""
    rule = 'accept' if valid else 'reject'
    if outs is None: ctx.skip(rule, inst, 'budget'); return False
    vs = [verdict(fs, r) for s, fs, r in outs]
    if valid:
        if 'err' in vs: ctx.ob(rule, inst, False, f.span, '%s: rejected although it is valid' % inst)
        elif vs and all(v is not None and v.endswith('ok') or v == 'maybe err' for v in vs) and any(v.endswith('ok') for v in vs): ctx.ob(rule, inst, True, f.span, '')
        else: ctx.skip(rule, inst, 'outcome not recognised: ' + '; '.join(show(r, 3) for s, fs, r in outs[:3])[:100]); return False
    else:
        if vs and all(v == 'err' for v in vs): ctx.ob(rule, inst, True, f.span, '')
        elif 'ok' in vs or 'maybe ok' in vs: ctx.ob(rule, inst, False, f.span, '%s: accepted' % inst)
        elif not vs: ctx.ob(rule, inst, False, f.span, '%s: does not return an error' % inst)
        else: ctx.skip(rule, inst, 'outcome not recognised: ' + '; '.join(show(r, 3) for s, fs, r in outs[:3])[:100]); return False
    ctx.count('guard cases')
    return True

def try_new(ctx):
    m = ctx.m
    f = meth(m, 'NurbsCurve', 'try_new')
    if f is None: return ctx.anchor_missing('NurbsCurve::try_new')
    for p, n, k in itertools.product(range(0, 5), range(0, 7), range(0, 13)):
        valid = n > p and k == n + p + 1
        if not valid and abs(k - (n + p + 1)) > 2: continue
        ks = [float(i) for i in range(k)]
        for order in ('ascending', 'shuffled', 'repeated') if valid else ('ascending',):
            xs = ks if order == 'ascending' else [ks[(i * 3 + 1) % k] if k % 3 else ks[-1 - i] for i in range(k)] if order == 'shuffled' else [float(i // 2 % 3) for i in range(k)]
            outs = explore(ctx, f, {f.arg_names.get(1): ci(p), f.arg_names.get(2): arr(P(n)), f.arg_names.get(3): arr([cf(x) for x in xs])})
            inst = 'try_new degree %d, %d points, %d knots%s' % (p, n, k, '' if order == 'ascending' else ' ' + order)
            if not judge(ctx, inst, f, outs, valid) or not valid: continue
            for s, fs, r in outs:
                c = curve_parts(r.a[3][0]) if is_adt(r, RES, 'Ok') else None
                if c is None: ctx.skip('kept', inst, show(r, 4)[:100]); continue
                ctx.ob('kept', inst, c[0] == p and c[2] == P(n) and c[1] == sorted(xs), f.span, '%s: keeps degree %d, points %s, knots %s' % (inst, c[0], [show(x) for x in c[2]], c[1]))
def consistent(ctx, inst, f, c, want=None):
    d, ks, cp = c
    good = len(cp) > d and len(ks) == len(cp) + d + 1 and ks == sorted(ks)
    ctx.ob('kept', inst, good and (want is None or want(d, ks, cp)), f.span, '%s: degree %d, %d points, knots %s' % (inst, d, len(cp), ks))

def hom_over(I, st, nm, a, v):
    if nm == 'to_homogeneous' and len(v) == 1: return [(st, mk('call', 'hom', (v[0],)))]
    if nm == 'as_slice' and len(v) == 1 and v[0].k == 'call' and v[0].a[0] == 'hom': return [(st, v[0])]
    if nm == 'from_slice' and len(v) == 1 and v[0].k == 'call' and v[0].a[0] == 'hom': return [(st, v[0])]
    if nm in ('norm', 'magnitude') and len(v) == 1: return [(st, cf(1.5))]
    if nm == 'dim' and not v: return [(st, ci(3))]
def shapes(ctx):
    """constructors that cannot fail"""
    m = ctx.m
    f = meth(m, 'NurbsCurve', 'polyline')
    if f is None: ctx.anchor_missing('NurbsCurve::polyline')
    else:
        for n, norm in itertools.product(range(2, 7), (True, False)):
            outs = explore(ctx, f, {f.arg_names.get(1): arr(P(n)), f.arg_names.get(2): TRUE if norm else FALSE}, hom_over)
            inst = 'polyline of %d points%s' % (n, ' normalized' if norm else '')
            for s, fs, r in outs or []:
                c = curve_parts(r)
                if c is None or fs: ctx.skip('kept', inst, show(r, 4)[:100]); continue
                last = 1. if norm else 1.5 * (n - 1)
                consistent(ctx, inst, f, c, lambda d, ks, cp: d == 1 and cp == [mk('call', 'hom', (x,)) for x in P(n)] and ks[0] == ks[1] == 0 and ks[-1] == ks[-2] and abs(ks[-1] - last) < 1e-12 and all(x < y for x, y in zip(ks[1:-1], ks[2:-1])))
                ctx.count('built objects')
    f = meth(m, 'NurbsCurve', 'bezier')
    if f is not None:
        for n in range(1, 7):
            outs = explore(ctx, f, {f.arg_names.get(1): arr(P(n))}, hom_over)
            inst = 'bezier of %d points' % n
            for s, fs, r in outs or []:
                c = curve_parts(r)
                if c is None or fs: ctx.skip('kept', inst, show(r, 4)[:100]); continue
                consistent(ctx, inst, f, c, lambda d, ks, cp: d == n - 1); ctx.count('built objects')

class Past(Exception): pass
def counts(ctx):
    m = ctx.m
    named = [(meth(m, 'NurbsCurve', 'try_periodic'), 'try_periodic', 1), (meth(m, 'NurbsCurve', 'try_interpolate'), 'try_interpolate', 1),
             (meth(m, 'NurbsCurve', 'try_periodic_interpolate'), 'try_periodic_interpolate', 1),
             (free(m, 'try_interpolate_control_points'), 'try_interpolate_control_points', 1), (free(m, 'try_periodic_interpolate_control_points'), 'try_periodic_interpolate_control_points', 1)]
    for f, nm, _ in named:
        if f is None:
            if nm in ('try_periodic', 'try_interpolate', 'try_periodic_interpolate'): ctx.anchor_missing('NurbsCurve::' + nm)
            continue
        for p, n in itertools.product(range(1, 5), range(0, 8)):
            valid = n > p
            if valid and n > p + 3: continue
            a = {f.arg_names.get(1): arr(P(n)), f.arg_names.get(2): ci(p)}
            style = unit_adt(m, 'KnotStyle', 'Centripetal')
            for i in range(3, f.nargs + 1):
                if f.lty(i).s == 'bool': a[f.arg_names.get(i)] = TRUE
                elif 'KnotStyle' in f.lty(i).s and style is not None: a[f.arg_names.get(i)] = style
            def stop(I, st, nm2, av, v):
                # the guards come before the linear system: entering it with valid counts settles the case
                if valid and nm2 in ('basis_functions', 'parameterize', 'zeros', 'lu', 'solve'): raise Past
                if nm2 == 'basis_functions': return [(st, arr([cf(.25)] * (p + 1)))]
                if nm2 in ('lu', 'solve'): raise Past
                return hom_over(I, st, nm2, av, v)
            inst = '%s of %d points with degree %d' % (nm, n, p)
            try: outs = explore(ctx, f, a, stop, unroll=60, t=6)
            except Past:
                ctx.ob('accept' if valid else 'reject', inst, valid, f.span, inst + ': goes on to solve for control points'); ctx.count('guard cases'); continue
            if judge(ctx, inst, f, outs, valid) and valid and nm == 'try_periodic':
                for s, fs, r in outs:
                    c = curve_parts(r.a[3][0]) if is_adt(r, RES, 'Ok') else None
                    if c is None: ctx.skip('kept', inst, show(r, 4)[:100]); continue
                    consistent(ctx, inst, f, c, lambda d, ks, cp: d == p and cp == [mk('call', 'hom', (P(n)[i % n],)) for i in range(n + p)] and len({round(y - x, 9) for x, y in zip(ks, ks[1:])}) == 1)

def trig(I, st, nm, a, v):
    if nm in ('cos', 'sin', 'sin_cos', 'tan') and len(v) == 1:
        x = numeric(v[0])
        if x is not None: return [(st, tup(cf(math.sin(x)), cf(math.cos(x))) if nm == 'sin_cos' else cf(getattr(math, nm)(float(x))))]
    if nm == 'find_intersection' and len(v) == 2:
        return None
    return hom_over(I, st, nm, a, v)
def arcs(ctx):
    m = ctx.m
    tests = [(0., 0.), (1., .5), (0., -1.), (2., 2.), (-1., -1.5), (0., 1.), (.5, 1.), (-1., 1.), (0., math.pi), (0., 2 * math.pi), (1., 1.001), (3., 4.), (0., 1.6), (0., 4.), (0., 5.), (-3., 3.)]
    for nm in ('try_ellipse_arc', 'try_arc'):
        f = meth(m, 'NurbsCurve', nm)
        if f is None: ctx.anchor_missing('NurbsCurve::' + nm); continue
        for s0, s1 in tests:
            inst = '%s from %.4g to %.4g' % (nm, s0, s1)
            def ov(I, st, n2, a, v):
                if n2 == 'find_intersection' and len(v) == 2: return [(st, some(mk('call', 'ray_hit', (v[0], v[1]))))]
                if n2 == 'from_slice' and len(v) == 1: return [(st, mk('call', 'point', (v[0],)))]
                return trig(I, st, n2, a, v)
            outs = explore(ctx, f, {f.arg_names.get(f.nargs - 1): cf(s0), f.arg_names.get(f.nargs): cf(s1)}, ov)
            valid = s1 > s0
            if judge(ctx, inst, f, outs, valid) and valid:
                for s, fs, r in outs:
                    c = curve_parts(r.a[3][0]) if is_adt(r, RES, 'Ok') else None
                    if c is None: ctx.skip('kept', inst, show(r, 4)[:100]); continue
                    consistent(ctx, inst, f, c, lambda d, ks, cp: d == 2 and abs(ks[0] - s0) < 1e-9 and abs(ks[-1] - s1) < 1e-9 and ks[0] == ks[2] and ks[-1] == ks[-3])
                    ctx.count('built objects')

def small(ctx, ks=(0., 0., 0., 1., 2., 2., 2.), p=2): return curve(ctx.m, p, list(ks), P(len(ks) - p - 1))
def lengths(ctx):
    m = ctx.m
    f = meth(m, 'NurbsCurve', 'try_divide_by_length')
    c = small(ctx)
    if c is None: return ctx.skip('reject', 'curves', 'fields changed')
    def ov(I, st, nm, a, v):
        if nm == 'try_length' and len(v) == 1 and v[0] is c: return [(st, ok(cf(7.)))]
        if nm == 'try_length' and len(v) == 1 and v[0].k == 'call' and v[0].a[0] == 'bez': return [(st, ok(cf(3.5)))]
        if nm == 'compute_bezier_segment_length': return [(st, cf(3.5))]
        if nm == 'compute_bezier_segment_parameter_at_length': return [(st, mk('call', 'at', tuple(v[:2])))]
        if nm == 'try_decompose_bezier_segments': return [(st, ok(arr([mk('call', 'bez', (ci(0),)), mk('call', 'bez', (ci(1),))])))]
        if nm == 'knots_domain' and v[0].k == 'call' and v[0].a[0] == 'bez': return [(st, tup(cf(numeric(v[0].a[1][0])), cf(numeric(v[0].a[1][0]) + 1)))]
        if nm == 'new' and len(v) == 1 and numeric(v[0]) is not None and float(numeric(v[0])) == 18.: return [(st, ok(arg('GAUSS')))]
    opq = lambda g: True if g.name in ('try_length', 'compute_bezier_segment_length', 'compute_bezier_segment_parameter_at_length', 'try_decompose_bezier_segments') else None
    if f is None: ctx.anchor_missing('NurbsCurve::try_divide_by_length')
    else:
        for x in (0., -1., -1e-3, 7., 7.5, 100., 6.9, 3.5, 1., .5):
            outs = explore(ctx, f, {f.arg_names.get(1): c, f.arg_names.get(2): cf(x)}, ov, opq=opq)
            judge(ctx, 'try_divide_by_length of a curve of length 7 by %g' % x, f, outs, 0 < x < 7)
    f = meth(m, 'NurbsCurve', 'try_parameter_at_length')
    if f is None: ctx.anchor_missing('NurbsCurve::try_parameter_at_length')
    else:
        for x in (0., 1., 3.5, 5., 7., 7.001, 8., 100.):
            outs = explore(ctx, f, {f.arg_names.get(1): c, f.arg_names.get(2): cf(x), f.arg_names.get(3): NONE}, ov, opq=opq)
            judge(ctx, 'try_parameter_at_length %g of a curve of length 7' % x, f, outs, x <= 7)

def final(s, i=0): return s.s.get(('r', i))
def same_curve(x, y):
    a, b = curve_parts(x) if x is not None else None, curve_parts(y)
    return None if a is None else a == b
def add_knot(ctx):
    m = ctx.m
    f = meth(m, 'NurbsCurve', 'try_add_knot')
    if f is None: return ctx.anchor_missing('NurbsCurve::try_add_knot')
    for ks, p in (((0., 0., 0., 1., 2., 2., 2.), 2), ((1., 1., 2., 3., 3.), 1), ((0., 1., 2., 3., 4., 5., 6.), 2)):
        c = small(ctx, ks, p)
        for x in (ks[0] - 1, ks[0] - 1e-3, ks[-1] + 1e-3, ks[-1] + 5, ks[p] + .5, ks[-p - 1] - .25, ks[p + 1], ks[0], ks[-1]):
            outs = explore(ctx, f, {f.arg_names.get(1): c, f.arg_names.get(2): cf(x)})
            inst = 'try_add_knot %g to %s' % (x, list(ks))
            valid = ks[0] <= x <= ks[-1]
            if not judge(ctx, inst, f, outs, valid): continue
            for s, fs, r in outs:
                v = final(s)
                if not valid:
                    e = same_curve(v, c)
                    if e is None: ctx.skip('untouched', inst, 'curve not recognised')
                    else: ctx.ob('untouched', inst, e, f.span, '%s changes the curve although it gives an error' % inst)
                else:
                    q = curve_parts(v) if v is not None else None
                    if q is None: ctx.skip('kept', inst, 'curve not recognised'); continue
                    consistent(ctx, inst, f, q, lambda d, k2, cp: d == p and k2 == sorted(list(ks) + [x]))
def remove_knot(ctx):
    m = ctx.m
    f = meth(m, 'NurbsCurve', 'try_remove_knot')
    if f is None: return ctx.anchor_missing('NurbsCurve::try_remove_knot')
    def ov(I, st, nm, a, v):
        if nm in ('norm', 'magnitude') and len(v) == 1: return [(st, cf(hit))]
    clamped, uniform, p = (0., 0., 0., 1., 2., 3., 3., 3.), (0., 1., 2., 3., 4., 5., 6., 7.), 2
    for ks, x, hit, valid in [(clamped,) + r for r in ((.5, 0., False), (-1., 0., False), (5., 0., False), (0., 0., False), (3., 0., False), (1., 0., True), (2., 0., True), (1., 1., True))] + \
            [(uniform,) + r for r in ((0., 0., False), (1., 0., False), (2., 0., False), (2.5, 0., False), (8., 0., False), (6., 0., False), (7., 0., False), (5., 0., False), (3., 0., True), (4., 0., True))]:
        c = small(ctx, ks, p)
        outs = explore(ctx, f, {f.arg_names.get(1): c, f.arg_names.get(2): cf(x), f.arg_names.get(3): some(cf(1e-3))}, ov)
        inst = 'try_remove_knot %g%s from %s' % (x, '' if hit == 0 else ' beyond the tolerance', list(ks))
        if not judge(ctx, inst, f, outs, valid): continue
        for s, fs, r in outs:
            v = final(s)
            q = curve_parts(v) if v is not None else None
            if q is None: ctx.skip('untouched', inst, 'curve not recognised'); continue
            if not valid or hit: ctx.ob('untouched', inst, q == curve_parts(c), f.span, '%s changes the curve' % inst)
            else: consistent(ctx, inst, f, q, lambda d, k2, cp: d == p and list(k2) == [k for k in ks if k != x])
def elevate(ctx):
    m = ctx.m
    f = meth(m, 'NurbsCurve', 'try_elevate_degree')
    if f is None: return ctx.anchor_missing('NurbsCurve::try_elevate_degree')
    for ks, p in (((0., 0., 0., 1., 2., 2., 2.), 2), ((0., 0., 1., 1.), 1), ((0.,) * 4 + (1.,) * 4, 3)):
        c = small(ctx, ks, p)
        for t in range(0, p + 1):
            outs = explore(ctx, f, {f.arg_names.get(1): c, f.arg_names.get(2): ci(t)})
            inst = 'try_elevate_degree of degree %d to %d' % (p, t)
            if outs is None: ctx.skip('kept', inst, 'budget'); continue
            for s, fs, r in outs:
                q = curve_parts(r.a[3][0]) if is_adt(r, RES, 'Ok') else None
                if q is None or fs: ctx.skip('kept', inst, show(r, 3)[:100]) if not (is_adt(r, RES, 'Err') and not fs) else ctx.ob('kept', inst, True); continue
                ctx.ob('kept', inst, q == curve_parts(c), f.span, '%s gives another curve' % inst)
                ctx.count('guard cases')
def trims(ctx):
    m = ctx.m
    for nm in ('try_projection', 'try_map_closest_point'):
        f = meth(m, 'TrimmedSurface', nm)
        if f is None: ctx.anchor_missing('TrimmedSurface::' + nm); continue
        ext = [i for i in range(1, f.nargs + 1) if f.lty(i).s.startswith('std::option::Option')]
        ins = [i for i in range(1, f.nargs + 1) if f.lty(i).s.startswith('std::vec::Vec')]
        if len(ext) != 1 or len(ins) != 1: ctx.skip('reject', nm, 'arguments not recognised'); continue
        for e, n, bad in itertools.product((False, True), (0, 1, 2), (None, 0, 1, 2)):
            items = (['E'] if e else []) + ['I%d' % i for i in range(n)]
            if bad is not None and bad >= len(items): continue
            def ov(I, st, n2, a, v):
                if n2 in ('try_project_curve', 'try_map_curve_closest_point') and v:
                    w = [x for x in v if x.k == 'arg' and x.a[0] in items]
                    if len(w) != 1: return None
                    if bad is not None and items[bad] == w[0].a[0]: return [(st, adt(RES, 'Err', ('0',), (arg('why'),)))]
                    return [(st, ok(mk('call', 'mapped', (w[0],))))]
            outs = explore(ctx, f, {f.arg_names.get(ext[0]): some(arg('E')) if e else NONE, f.arg_names.get(ins[0]): arr([arg('I%d' % i) for i in range(n)])}, ov, inl=lambda g: None, opq=lambda g: True if g.name in ('try_project_curve', 'try_map_curve_closest_point') else None)
            inst = '%s %s exterior, %d interiors%s' % (nm, 'with' if e else 'without', n, '' if bad is None else ', curve %d failing' % bad)
            judge(ctx, inst, f, outs, bool(items) and bad is None)
def lofts(ctx):
    m = ctx.m
    f = meth(m, 'NurbsSurface', 'try_loft')
    if f is None: return ctx.anchor_missing('NurbsSurface::try_loft')
    def ov(I, st, nm, a, v):
        # past the guards: the sections are unified and interpolated
        if nm in ('try_interpolate_control_points', 'try_refine_knot'): raise Past
        return hom_over(I, st, nm, a, v)
    for n in range(0, 4):
        cs = [curve(m, 1, [0., 0., 1., 1.], [arg('P%d_%d' % (i, j)) for j in range(2)]) for i in range(n)]
        if None in cs: return ctx.skip('reject', 'curves', 'fields changed')
        inst = 'try_loft of %d sections' % n
        try: outs = explore(ctx, f, {f.arg_names.get(1): arr(cs), f.arg_names.get(2): NONE}, ov, inl=lambda g: True if g.span.startswith(('src/curve', 'src/knot', 'src/misc', 'src/surface')) else None)
        except Past:
            if n: ctx.ob('accept', inst, True, f.span, ''); ctx.count('guard cases')
            else: ctx.ob('reject', inst, False, f.span, inst + ': goes on to interpolate'); ctx.count('guard cases')
            continue
        judge(ctx, inst, f, outs, n > 0)
