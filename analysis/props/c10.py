"""C10 u and v never get mixed up: every surface operation is asked on surfaces whose degrees, knots and domains differ between the two directions (the
surface parts of the checks that own the operation), and the places where a direction is chosen are decided directly: cells of the box tree, the step of
the closest parameter solver, the start of the surface-curve solver, reversal and transposition."""
from asklab import *
from signs import *
from vf import *
from props import c08, c11, c15, c16, c18, c20, c30, c31

PAIRS = c30.PAIRS

class Part:
    """a context that files the obligations of another module under one rule of this property"""
    def __init__(self, ctx, rule, keep=None): self.ctx, self.r, self.keep = ctx, rule, keep
    @property
    def m(self): return self.ctx.m
    def __getattr__(self, n): return getattr(self.ctx, n)
    def want(self, rule, inst): return self.keep is None or self.keep(rule, str(inst))
    def rule(self, name, text): pass
    def ob(self, rule, inst, good=True, site='', msg=''):
        if self.want(rule, inst): return self.ctx.ob(self.r, '%s: %s' % (rule, inst), good, site, msg)
        return good
    def skip(self, rule, inst, why):
        if self.want(rule, inst): self.ctx.skip(self.r, '%s: %s' % (rule, inst), why)
    def violation(self, key, site, msg):
        if self.want(key.split('|')[0], key): self.ctx.violation(self.r + '|' + key, site, msg)

def check(ctx):
    ctx.rule('evaluation', 'points, derivatives, normals and sampled grids of surfaces with different degrees and knots in u and v are those of the definition')
    ctx.rule('domains', 'each direction has its own degree, knots and domain, whichever accessor is asked')
    ctx.rule('pieces', 'refining, splitting, isocurves and borders act on the direction asked for and leave the other as it was')
    ctx.rule('turning', 'reversal turns the directions asked for and no other; the transpose exchanges rows and columns')
    ctx.rule('closest', 'the solver is given each direction\'s own domain and closedness; a step in one direction follows the slope in that direction only')
    ctx.rule('boxes', 'a cell is divided in the direction it carries, inside the domain of that direction, while it is wider than the tolerance of either direction')
    ctx.rule('crossing', 'the surface-curve search starts inside the cell it was given, each parameter in its own domain, and reports each in its place')
    ctx.rule('grids', 'the tessellation grid has at least the divisions asked for in each direction, over its domain, with the knots and constraints of that direction')
    ctx.assumptions.append('the surfaces are families with differing degrees, knots and domains in u and v (control points symbolic where the rule evaluates)')
    def part(rule, fn, keep=None, *a):
        fn(Part(ctx, rule, keep), *a)
    part('evaluation', c30.surfaces)
    part('evaluation', c30.grids)
    accessors(ctx); turning(ctx)
    part('pieces', c31.surfaces)
    part('pieces', c31.isocurves)
    part('pieces', c18.split_surface)
    closest(ctx, lambda: Part(ctx, 'closest'))
    step(ctx); part('boxes', c16.trees, lambda r, i: 'Curve' not in i.split(' ')[0])
    boxes(ctx)
    crossing(ctx)
    part('grids', c08.grid)
    part('grids', c20.grid)
    part('grids', c20.borders)

def accessors(ctx):
    m = ctx.m
    nms = ('u_knots_domain', 'v_knots_domain', 'knots_domain', 'knots_domain_interval', 'knots_domain_at', 'u_degree', 'v_degree', 'u_knots', 'v_knots')
    F = {n: public(ctx, 'NurbsSurface', n) for n in nms}
    for a, b in PAIRS:
        s = nsurf(m, a, b)
        if s is None: ctx.skip('domains', 'surface', 'fields changed'); continue
        D = (domain(*SPECS[a]), domain(*SPECS[b])); at = 'degrees %d, %d, knots #%d, #%d' % (SPECS[a][0], SPECS[b][0], a, b)
        pair = lambda w: lambda r: listed(r, w, scalar)
        for i, x in enumerate('uv'):
            if F[x + '_knots_domain']: ask(ctx, 'domains', '%s_knots_domain: %s' % (x, at), F[x + '_knots_domain'], [s], pair(D[i]))
            if F[x + '_degree']: ask(ctx, 'domains', '%s_degree: %s' % (x, at), F[x + '_degree'], [s], lambda r: scalar(r, SPECS[(a, b)[i]][0]))
            if F[x + '_knots']: ask(ctx, 'domains', '%s_knots: %s' % (x, at), F[x + '_knots'], [s], lambda r: (lambda k: None if k is None else k == [float(y) for y in SPECS[(a, b)[i]][1]])(knots_of(r)))
            d = unit_adt(m, 'UVDirection', x.upper())
            if F['knots_domain_at'] and d is not None: ask(ctx, 'domains', 'knots_domain_at %s: %s' % (x, at), F['knots_domain_at'], [s, d], pair(D[i]))
        if F['knots_domain']: ask(ctx, 'domains', 'knots_domain: ' + at, F['knots_domain'], [s], lambda r: listed(r, D, lambda x, w: listed(x, w, scalar)))
        if F['knots_domain_interval']: ask(ctx, 'domains', 'knots_domain_interval: ' + at, F['knots_domain_interval'], [s], pair([y - x for x, y in D]))

def rows_of(s):
    g = fld(s, 'control_points') if s is not None and s.k == 'adt' else None
    if g is None or g.k != 'arr' or not all(x.k == 'arr' for x in g.a[0]): return None
    return [list(x.a[0]) for x in g.a[0]]
def turning(ctx):
    m = ctx.m
    fl, tr = public(ctx, 'NurbsSurface', 'flip'), public(ctx, 'NurbsSurface', 'transposed_control_points')
    mirror = lambda ks: [ks[0] + ks[-1] - k for k in reversed(ks)]
    for a, b in PAIRS:
        s = nsurf(m, a, b)
        if s is None: ctx.skip('turning', 'surface', 'fields changed'); continue
        at = 'degrees %d, %d, knots #%d, #%d' % (SPECS[a][0], SPECS[b][0], a, b)
        P = rows_of(s)
        if tr: ask(ctx, 'turning', 'transposed_control_points: ' + at, tr, [s], lambda r: listed(r, list(zip(*P)), lambda x, w: listed(x, w, lambda y, z: y is z)), 4)
        for w in ('U', 'V', 'UV'):
            d = unit_adt(m, 'FlipDirection', w)
            if not fl or d is None: continue
            want = [list(reversed(r)) if 'V' in w else r for r in (reversed(P) if 'U' in w else P)]
            def same(r):
                g = rows_of(r)
                if g is None: return None
                ks = [knots_of(fld(r, x)) for x in ('u_knots', 'v_knots')]
                if None in ks: return None
                exp = [mirror(k) if x in w else k for x, k in zip('UV', (SPECS[a][1], SPECS[b][1]))]
                # the turned knots may keep or lose the offset of their start; their steps are mirrored
                steps = lambda k: [round(y - x, 9) for x, y in zip(k, k[1:])]
                return (len(g) == len(want) and all(len(x) == len(y) and all(p is q for p, q in zip(x, y)) for x, y in zip(g, want))
                        and all(steps(k) == steps(e) and (x in w or k == list(e)) for x, k, e in zip('UV', ks, exp))
                        and scalar(fld(r, 'u_degree'), SPECS[a][0]) and scalar(fld(r, 'v_degree'), SPECS[b][0]))
            ask(ctx, 'turning', 'flip %s: %s' % (w, at), fl, [s, d], same, 4)

def closest(ctx, P):
    m = ctx.m
    f = ctx.one(m.method('NurbsSurface', 'find_closest_parameter'), 'NurbsSurface::find_closest_parameter')
    sol, outs = c15.solver_of(ctx, f, 2)
    if sol is None: return ctx.skip('closest', 'solver', 'solver value not recognised')
    c15.result(P(), f, 'NurbsSurface', 2, outs)
    c15.step(P(), f, 'NurbsSurface', 2, sol)
    clos = find(sol, lambda x: x.k == 'arg' and x.a[0] in ('closed0', 'closed1'))
    if len(clos) < 2: ctx.skip('closest', 'closedness', 'origin of the closed flags not recognised: ' + show(sol, 5)[:100])

def step(ctx):
    """the Newton step where the target lies across one direction only"""
    m = ctx.m
    gs = [g for g in m.fns.values() if g.name == 'next_iter' and (g.self_adt() or '').endswith('::SurfaceClosestParameterNewton')]
    if len(gs) != 1: return ctx.anchor_missing('step of SurfaceClosestParameterNewton')
    g = gs[0]
    U, V = (0., 1.), (10., 30.)
    me = build(m, 'SurfaceClosestParameterNewton', {'gamma': cf(.25), 'knot_domain': tup(tup(*map(cf, U)), tup(*map(cf, V))), 'closed': tup(FALSE, FALSE), 'phantom': arg('PH')})
    if me is None: return ctx.skip('closest', 'step', 'fields changed')
    z = arr([cf(0.)] * 3)
    vec = lambda i, x: arr([cf(float(x)) if j == i else cf(0.) for j in range(3)])
    # the surface runs along x in u and along y in v, at speeds 2 and 3; second derivatives are given per case
    for label, su, sv, suu, svv, dif, moves in (
            ('off in v', vec(0, 2), vec(1, 3), z, z, vec(1, .6), (0, -1)), ('off in u', vec(0, 2), vec(1, 3), z, z, vec(0, .4), (-1, 0)),
            ('off in v, bent in u', vec(0, 2), vec(1, 3), vec(1, 2), z, vec(1, -.6), (0, 1)), ('off in u, bent in v', vec(0, 2), vec(1, 3), z, vec(0, 2), vec(0, -.4), (1, 0)),
            ('off in both, hollow in u', vec(0, 2), vec(1, 3), vec(0, -20), z, arr([cf(.4), cf(-.6), cf(0.)]), (0, 1)),
            ('off in both, hollow in v', vec(0, 2), vec(1, 3), z, vec(1, 20), arr([cf(.4), cf(-.6), cf(0.)]), (-1, 0)),
            ('off in both, hollow in both', vec(0, 2), vec(1, 3), vec(0, -20), vec(1, -20), arr([cf(.4), cf(.6), cf(0.)]), (0, 0)),
            ('off in both', vec(0, 2), vec(1, 3), z, z, arr([cf(.4), cf(-.6), cf(0.)]), (-1, 1))):
        def ov(I, st, nm, name, a, v):
            if nm == 'gradient': return [(st, ok(dif))]
            if nm == 'hessian': return [(st, ok(arr([arr([dif, sv, svv]), arr([su, z, z]), arr([suu, z, z])])))]
            if nm == 'cost' and 'Problem' in name: return [(st, ok(cf(.5)))]
            if nm == 'get_cost': return [(st, cf(1.))]
            if nm == 'get_param': return [(st, some(arr([cf(.5), cf(20.)])))]
            if nm == 'param' and len(v) == 2: return [(st, adt('State', 'State', ('param',), (v[1],)))]
            if nm == 'cost' and len(v) == 2: return [(st, v[0])]
            if nm == 'new' and 'Matrix' in name and len(v) == 4: return [(st, arr(v))]
            if nm == 'lu' or nm == 'cholesky': return [(st, mk('call', 'LU', (v[0],)))]
            if nm == 'solve' and len(v) == 2 and v[0].k == 'call' and v[0].a[0] == 'LU':
                M = numbers2(v[0].a[1][0]); r = [numeric(x) for x in v[1].a[0]] if v[1].k == 'arr' else None
                if M is None or r is None or None in r: return None
                det = M[0] * M[3] - M[1] * M[2]
                if not det: return [(st, NONE)]
                return [(st, some(arr([cf((r[0] * M[3] - M[1] * r[1]) / det), cf((M[0] * r[1] - M[2] * r[0]) / det)])))]
            if nm == 'dot' and len(v) == 2:
                x, y = [[numeric(q) for q in w.a[0]] if w.k == 'arr' else None for w in v]
                return [(st, cf(sum(p * q for p, q in zip(x, y))))] if x and y and None not in x + y else None
            if nm in ('norm', 'magnitude') and len(v) == 1 and v[0].k == 'arr':
                x = [numeric(q) for q in v[0].a[0]]
                return None if None in x else [(st, cf(sum(q * q for q in x) ** .5))]
            return None
        an = names(g)
        outs = evaluate(ctx, g, {an[0]: me, an[1]: arg('PROBLEM'), an[2]: arg('STATE')}, 4, more=lambda I, st, name, info, a: ov(I, st, info['name'], name, a, [I.value(st, x) for x in a]))
        inst = 'step ' + label
        if not outs: ctx.skip('closest', inst, 'not interpreted'); continue
        for fs, _, r in outs:
            p = r.a[3][0] if is_adt(r, RES, 'Ok') else None
            if p is not None and p.k == 'tup': p = p.a[0][0]
            q = [value(x) for x in fld(p, 'param').a[0]] if p is not None and p.k == 'adt' and p.a[2] == ('param',) and fld(p, 'param').k == 'arr' else [None]
            if fs or None in q: ctx.skip('closest', inst, (show(r, 12) + showf(fs, 2))[:120]); continue
            sg = tuple((x > y + 1e-12) - (x < y - 1e-12) for x, y in zip(q, (.5, 20.)))
            ctx.ob('closest', inst, sg == moves, g.span, '%s: from (0.5, 20) the step goes to (%g, %g)' % (inst, q[0], q[1])); ctx.count('solver steps')
def value(t):
    v = numeric(t)
    if v is None:
        f = lin(t)
        v = f.get('', 0) if f is not None and not set(f) - {''} else None
    return None if v is None else float(v)
def numbers2(t):
    t = list(t.a[0]) if t.k == 'arr' else None
    if t and all(x.k == 'arr' for x in t): t = [y for x in t for y in x.a[0]]
    x = [numeric(y) for y in t] if t else [None]
    return None if None in x or len(x) != 4 else x

def boxes(ctx):
    m = ctx.m
    ty = 'SurfaceBoundingBoxTree'
    div, new = [[g for g in m.fns.values() if g.name == n and (g.self_adt() or '').endswith('::' + ty)] for n in ('is_dividable', 'new')]
    D = unit_adt(m, 'UVDirection', 'U')
    for a, b in PAIRS[:4]:
        s = nsurf(m, a, b)
        if s is None: continue
        wu, wv = [y - x for x, y in (domain(*SPECS[a]), domain(*SPECS[b]))]
        at = 'degrees %d, %d, domains %g and %g wide' % (SPECS[a][0], SPECS[b][0], wu, wv)
        if len(div) == 1:
            for tu, tv in ((1.5, 1.5), (.5, 1.5), (1.5, .5), (.5, .5), (wv / wu * 1.01, wu / wv * 1.01), (wv / wu * .99, wu / wv * .99)):
                me = build(m, ty, {'surface': s, 'tolerance': tup(cf(wu * tu), cf(wv * tv)), 'direction': D})
                if me is None: ctx.skip('boxes', ty, 'fields changed'); break
                ask(ctx, 'boxes', 'dividable at tolerance %.4g, %.4g: %s' % (wu * tu, wv * tv, at), div[0], [me], lambda r: scalar(r, int(tu < 1 or tv < 1)), 4, more=cow)
        if len(new) == 1:
            def tol(r): return [numeric(x) for x in fld(r, 'tolerance').a[0]] if r.k == 'adt' and 'tolerance' in r.a[2] and fld(r, 'tolerance').k in ('arr', 'tup') else None
            base = {}
            for x, y in ((a, b), (a, a), (b, b)):
                t = nsurf(m, x, y)
                o = evaluate(ctx, new[0], dict(zip(names(new[0]), [t, D, NONE])), 4)
                got = [tol(r) for fs, me, r in o or [] if not fs]
                base[x, y] = got[0] if len(got) == 1 and got[0] and None not in got[0] else None
            if None in base.values(): ctx.skip('boxes', 'tolerance of its own: ' + at, 'not interpreted')
            else: ctx.ob('boxes', 'tolerance of its own: ' + at, abs(base[a, b][0] - base[a, a][0]) < 1e-12 and abs(base[a, b][1] - base[b, b][1]) < 1e-12, new[0].span,
                         'the default tolerance of a direction depends on the other: %s on a surface that has the widths %g and %g, %s and %s where both directions are alike' % (base[a, b], wu, wv, base[a, a], base[b, b]))
            o = evaluate(ctx, new[0], dict(zip(names(new[0]), [s, unit_adt(m, 'UVDirection', 'V'), some(tup(cf(.125), cf(.75)))])), 4)
            for fs, me, r in o or []:
                t = tol(r)
                if fs or t is None or None in t: ctx.skip('boxes', 'tolerance given: ' + at, show(r, 4)[:80]); continue
                ctx.ob('boxes', 'tolerance given: ' + at, t == [.125, .75] and fld(r, 'direction') is unit_adt(m, 'UVDirection', 'V'), new[0].span, 'a tree asked for the tolerances 0.125, 0.75 in direction V has %s' % show(r, 4)[:120])
def cow(I, st, name, info, a):
    if info['name'] in ('as_ref', 'deref', 'borrow') and len(a) == 1:
        v = I.value(st, a[0])
        if v.k == 'adt' and 'u_degree' in v.a[2]: return [(st, v)]

def crossing(ctx):
    m = ctx.m
    opts = c11.solver_options(m)
    f = [g for g in m.fns.values() if g.name == 'find_intersections' and (g.self_adt() or '').endswith('::NurbsSurface')]
    if opts is None or len(f) != 1: return ctx.skip('crossing', 'surface and curve', 'entry not recognised')
    f = f[0]
    A = c11.Acc(ctx)
    for doms in (((2., 6.), (10., 14.), (20., 24.)), ((0., 4.), (1., 3.), (-1., 5.))):
        c11.table(Part(ctx, 'crossing'), A, f, True, doms, opts)
    # the start of a search and the tolerances of the tree
    S, C = arg('SURFACE'), arg('CURVE')
    cell, whole = {'u': (3., 4.), 'v': (40., 60.), 'c': (500., 700.)}, {'u': (2., 6.), 'v': (0., 80.), 'c': (100., 900.)}
    starts, tols = [], []
    rg = lambda d, k: arr([cf(x) for x in d[k]])
    def ov(I, st, nm, name, a, v):
        if nm == 'knots_domain' and v:
            if v[0] is S: return [(st, tup(rg(whole, 'u'), rg(whole, 'v')))]
            if v[0] is C: return [(st, rg(whole, 'c'))]
            if v[0] is arg('PIECE'): return [(st, tup(rg(cell, 'u'), rg(cell, 'v')))]
            if v[0] is arg('SPAN'): return [(st, rg(cell, 'c'))]
        w = {S: whole, arg('PIECE'): cell}.get(v[0]) if v else None
        if w and nm in ('u_knots_domain', 'v_knots_domain'): return [(st, rg(w, nm[0]))]
        if w and nm == 'knots_domain_at' and v[1].k == 'adt': return [(st, rg(w, v[1].a[1].lower()))]
        if nm == 'knots_domain_interval' and v: return [(st, tup(cf(4.), cf(80.)))] if v[0] is S else [(st, cf(800.))] if v[0] is C else None
        if nm == 'new' and 'BoundingBoxTree' in name:
            if 'Surface' in name: tols.append(v[-1])
            return [(st, mk('call', 'tree', (v[0],)))]
        if nm == 'try_traverse': return [(st, ok(arg('TRAVERSAL')))]
        if nm == 'into_pairs_iter': return [(st, arr([arr([arg('CELLA'), arg('CELLB')])]))]
        if nm == 'surface_owned' or nm == 'surface' and v and v[0] is arg('CELLA'): return [(st, arg('PIECE'))]
        if nm == 'curve_owned' or nm == 'curve' and v and v[0] is arg('CELLB'): return [(st, arg('SPAN'))]
        if nm == 'param' and len(v) == 2: starts.append(v[1]); return [(st, v[0])]
        if nm == 'run': return [(st, adt(RES, 'Err', ('0',), (arg('E'),)))]
        if nm == 'new' and 'Executor' in name: return [(st, mk('call', 'exec', (v[0], v[1])))]
        if nm == 'configure' and len(v) == 2:
            I.apply1(st, a[1], [arg('STATE')], ('cfg',)); return [(st, v[0])]
        return None
    an = names(f)
    outs = c08.run_exact(ctx, f, {an[0]: S, an[1]: C, an[2]: some(opts)}, ov, inl=lambda g: True if g.span.startswith('src/intersects') and g.name not in ('gradient', 'cost', 'init', 'next_iter', 'terminate') else None)
    if not outs or not starts: ctx.skip('crossing', 'start', 'not interpreted')
    for p in starts:
        q = [numeric(x) for x in p.a[0]] if p.k == 'arr' else [None]
        if None in q or len(q) != 3: ctx.skip('crossing', 'start', show(p, 4)[:80]); continue
        ctx.ob('crossing', 'start', all(lo <= x <= hi for x, (lo, hi) in zip(q, (cell['c'], cell['u'], cell['v']))), f.span, 'the search in the cell u %s, v %s, curve %s starts at u %g, v %g, curve %g' % (cell['u'], cell['v'], cell['c'], q[1], q[2], q[0]))
    for t in tols:
        t = t.a[3][0] if is_adt(t, OPT, 'Some') else t
        q = [numeric(x) for x in t.a[0]] if t.k in ('tup', 'arr') else [None]
        if None in q or len(q) != 2: ctx.skip('crossing', 'tolerance', show(t, 4)[:80]); continue
        ctx.ob('crossing', 'tolerance', abs(q[0] * 20 - q[1]) < 1e-9, f.span, 'the domains 4 and 80 wide are searched down to cells %g and %g wide' % tuple(q))
