"""C25 frames along a curve and sweeps: the frames are terms in the symbolic control points of the rail, compared at assignments with what a frame is; the
sweep is interpreted with the frames replaced by one symbolic placement each, and the surface has to contain the profile in every placement, in order."""
from termlab import *
from props import c32

def check(ctx):
    ctx.rule('frame', 'every frame is at its point, along the tangent, orthonormal, and turned from the one before by the least rotation')
    ctx.rule('matrix', 'the placement of a frame maps the origin to its position, z to its tangent and y to its normal')
    ctx.rule('sweep', 'the surface contains the profile placed by the frames from the start to the end of the rail, in order')
    ctx.assumptions.append('real arithmetic, compared at random assignments of the symbols (identity testing) within 1e-6')
    frames(ctx); placements(ctx); sweeps(ctx)

def cross(a, b): return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
def dot(a, b): return sum(x * y for x, y in zip(a, b))
def unit(v): return axpy((1 / nrm(v), v))
def tmul(x, y): return fold('Mul', x, y)
def tdot(a, b): return total(mul(x, y) for x, y in zip(a, b))
def tcross(x, y): return [fold('Sub', mul(x[i], y[j]), mul(x[j], y[i])) for i, j in ((1, 2), (2, 0), (0, 1))]
def tunit(x):
    n = fn('sqrt', tdot(x, x))
    return [op('Div', c, n) for c in x]
def rot(rows): return mk('call', 'rotation', (arr([arr(r) for r in rows]),))
def rows_of(t): return [list(r.a[0]) for r in t.a[1][0].a[0]]
def vec3(t):
    while t.k == 'adt' and len(t.a[3]) == 1: t = t.a[3][0]
    return list(t.a[0]) if t.k == 'arr' and len(t.a[0]) == 3 and all(x.k not in ('arr', 'adt') for x in t.a[0]) else None
def spatial(I, st, name, info, a):
    """rotations and placements of nalgebra, by their definitions"""
    nm = info['name']
    if nm in ('x', 'y', 'z') and not a: return [(st, arr([cf(float(k == nm)) for k in 'xyz']))]
    if nm in ('x_axis', 'y_axis', 'z_axis') and not a: return [(st, arr([cf(float(k == nm[0])) for k in 'xyz']))]
    if not a: return [(st, rot([[cf(float(i == j)) for j in range(3)] for i in range(3)]))] if nm == 'identity' and 'otation' in name else None
    v = [I.value(st, x) for x in a]
    if nm in ('new_normalize',) and vec3(v[0]): return [(st, arr(tunit(vec3(v[0]))))]
    if nm in ('new_unchecked', 'into_inner') and vec3(v[0]): return [(st, v[0])]
    if nm == 'from_axis_angle' and len(v) == 2 and vec3(v[0]):
        x, (c, s) = vec3(v[0]), (fn('cos', v[1]), fn('sin', v[1]))
        k = fold('Sub', cf(1.), c)
        K = [[cf(0.), fold('Sub', cf(0.), x[2]), x[1]], [x[2], cf(0.), fold('Sub', cf(0.), x[0])], [fold('Sub', cf(0.), x[1]), x[0], cf(0.)]]
        return [(st, rot([[fold('Add', fold('Add', mul(mul(x[i], x[j]), k), mul(K[i][j], s)), c if i == j else cf(0.)) for j in range(3)] for i in range(3)]))]
    if nm in ('face_towards', 'new_observer_frame', 'look_at_rh', 'look_at_lh') and len(v) == 2 and vec3(v[0]) and vec3(v[1]):
        z = tunit(vec3(v[0]))
        if nm == 'look_at_rh': z = [fold('Sub', cf(0.), c) for c in z]
        x = tunit(tcross(vec3(v[1]), z)); y = tcross(z, x)
        R = [[x[i], y[i], z[i]] for i in range(3)]
        return [(st, rot(R if nm[0] in 'fn' else [x, y, z]))]
    if nm in ('inverse', 'transpose') and v[0].k == 'call' and v[0].a[0] == 'rotation':
        R = rows_of(v[0])
        return [(st, rot([[R[j][i] for j in range(3)] for i in range(3)]))]
    if nm in ('mul', 'transform_vector', 'transform_point') and len(v) == 2:
        if v[0].k == 'call' and v[0].a[0] == 'rotation':
            if vec3(v[1]): return [(st, arr([tdot(r, vec3(v[1])) for r in rows_of(v[0])]))]
            if v[1].k == 'call' and v[1].a[0] == 'rotation':
                B = rows_of(v[1])
                return [(st, rot([[tdot(r, [b[j] for b in B]) for j in range(3)] for r in rows_of(v[0])]))]
        if v[0].k == 'call' and v[0].a[0] == 'shift' and v[1].k == 'call' and v[1].a[0] == 'rotation': return [(st, mk('call', 'place', (v[0].a[1][0], v[1])))]
    if nm in ('from', 'new', 'into') and 'Translation' in name and vec3(v[0]): return [(st, mk('call', 'shift', (arr(vec3(v[0])),)))]
    if nm == 'from_parts' and len(v) == 2 and v[1].k == 'call' and v[1].a[0] == 'rotation':
        t = v[0].a[1][0] if v[0].k == 'call' and v[0].a[0] == 'shift' else v[0]
        return [(st, mk('call', 'place', (arr(vec3(t)), v[1])))] if vec3(t) else None
    if nm in ('clamp', 'acos', 'min', 'max') and ('Real' in name or 'simba' in name or 'nalgebra' in name or 'num_traits' in name):
        if all(x.k not in ('arr', 'adt') for x in v): return [(st, fn(nm, *v))]
    return None

RAILS = [(1, [0., 0., 1., 1.]), (2, [0., 0., 0., 1., 1., 1.]), (3, [1., 1., 1., 1., 2., 3., 3., 3., 3.]), (2, [0., 1., 2., 3., 4., 5., 6.])]
def rail_env(spec, seed, kind):
    env = penv(spec, 4, {}, seed)
    n = len(spec[1]) - spec[0] - 1
    if kind:
        ax = unit([.3, .5, .8]) if kind == 'line' else [float(kind == k) for k in 'xyz']
        for i in range(n):
            for c in range(3): env['P%d_%d' % (i, c)] = weight(i) * (1. + 2. * i * ax[c])
    return env
def derivative(spec, env, u):
    cps = profile(spec, 4)(env)
    H = [[sum(float(b) * c[k] for b, c in zip(basis(*spec, u, d), cps)) for k in range(4)] for d in (0, 1)]
    P = [x / H[0][3] for x in H[0][:3]]
    return P, [(H[1][k] - P[k] * H[1][3]) / H[0][3] for k in range(3)]
def frames(ctx):
    m = ctx.m
    f = public(ctx, 'NurbsCurve', 'compute_frenet_frames')
    if not f: return
    for k, spec in enumerate(RAILS):
        lo, hi = domain(*spec)
        c = ncurve(m, spec, 'P', 4)
        kinds = [('', 1), ('', 2)] + ([(x, 3) for x in ('x', 'y', 'z', 'line')] if k in (0, 1) else [])
        for kind, seed in kinds:
            us = [lo + (hi - lo) * t for t in ((0., .4, 1.) if spec[0] < 3 else (0., .7))]
            inst = 'frames of a %s rail of %s' % ('straight' if kind or spec[0] == 1 else 'curved', label(spec, k))
            env = rail_env(spec, seed, kind)
            verdicts(ctx, 'frame', inst + (', direction ' + kind if kind else ''), f, [c, arr([cf(u) for u in us])], 4, [env], lambda r, e: framed(r, e, spec, us), more=spatial, t=40)
def framed(r, env, spec, us):
    if r.k != 'arr': return None
    if len(r.a[0]) != len(us): return 'has %d frames for %d parameters' % (len(r.a[0]), len(us))
    last = None
    for x, u in zip(r.a[0], us):
        if x.k != 'adt' or not {'position', 'tangent', 'normal', 'binormal'} <= set(x.a[2]): return None
        try: p, t, n, b = [values(fld(x, k), env) for k in ('position', 'tangent', 'normal', 'binormal')]
        except Unknown: return None
        if not all(math.isfinite(c) for v in (p, t, n, b) for c in v): return 'are not finite'
        P, T = derivative(spec, env, u)
        if not near(p, P, 1e-6): return 'are not at the point of the curve at %g' % u
        if not near(t, unit(T), 1e-6): return 'are not along the tangent at %g' % u
        if abs(nrm(n) - 1) > 1e-6 or abs(dot(n, t)) > 1e-6: return 'have a normal that is not a unit vector across the tangent at %g' % u
        if not near(b, cross(t, n), 1e-6): return 'have a binormal that is not tangent x normal at %g' % u
        if last is not None:
            s, q = last
            ax = cross(s, t)
            if nrm(ax) < 1e-9: w = q
            else:
                ang = math.atan2(nrm(ax), dot(s, t)); ax = unit(ax)
                w = axpy((math.cos(ang), q), (math.sin(ang), cross(ax, q)), ((1 - math.cos(ang)) * dot(ax, q), ax))
            if not near(n, w, 1e-6): return 'are twisted from one to the next at %g' % u
        last = (t, n)
    return ''
def placements(ctx):
    m = ctx.m
    f = public(ctx, 'FrenetFrame', 'matrix')
    if not f: return
    v = lambda tag: arr(symbols(tag, 3))
    fr = build(m, 'FrenetFrame', {'position': v('o'), 'tangent': v('t'), 'normal': v('n'), 'binormal': v('b')})
    if fr is None: ctx.skip('matrix', 'placement of a frame', 'fields changed'); return
    envs = []
    for seed in (1, 2, 3):
        r = random.Random(seed)
        t = unit([r.uniform(-1, 1) for _ in range(3)]); n = unit(cross(t, [r.uniform(-1, 1) for _ in range(3)]))
        envs.append(assign({'o': 3, 't': t, 'n': n, 'b': cross(t, n)}, seed))
    def test(r, env):
        if r.k != 'call' or r.a[0] != 'place': return None
        try: o, R = values(r.a[1][0], env), [values(arr(x), env) for x in rows_of(r.a[1][1])]
        except Unknown: return None
        col = lambda j: [R[i][j] for i in range(3)]
        if not near(o, vget(env, 'o', 3)): return 'does not map the origin to the position'
        if not near(col(2), vget(env, 't', 3)): return 'does not map z to the tangent'
        if not near(col(1), vget(env, 'n', 3)): return 'does not map y to the normal'
        return '' if near(col(0), cross(col(1), col(2))) else 'is not a rotation'
    verdicts(ctx, 'matrix', 'placement of a frame', f, [fr], 4, envs, test, more=spatial)
def sweeps(ctx):
    m = ctx.m
    f = public(ctx, 'NurbsSurface', 'try_sweep')
    if not f: return
    fr = [a for a in m.adts if a['path'].split('::')[-1] == 'FrenetFrame']
    for pk, rk, deg in ((0, 0, 3), (0, 1, 2), (1, 1, 3), (2, 0, 1), (3, 1, None), (1, 2, 3)):
        ps, rs = [(1, [0., 0., 1., 1.]), (2, [0., 0., 0., 2., 3., 3., 3.]), (1, [0., 0., 1., 2., 2.]), (2, [1., 1., 1., 2., 2., 2.])][pk], RAILS[rk]
        inst = 'sweep of a profile of degree %d (#%d) along a rail of %s' % (ps[0], pk, label(rs, rk))
        seen = []
        solve = c32.solving(c32.Lengths(7))
        def more(I, st, name, info, a, seen=seen):
            nm = info['name']
            if nm == 'compute_frenet_frames' and len(a) == 2:
                us = numbers(I.value(st, a[1]))
                if us is None: return None
                seen[:] = us
                return [(st, arr([mk('call', 'frame', (ci(i),)) for i in range(len(us))]))]
            v = [I.value(st, x) for x in a]
            of = v[0].a[0] if v and v[0].k == 'call' else None
            if nm == 'matrix' and of == 'frame': return [(st, mk('call', 'placement', v[0].a[1]))]
            if nm in ('rotation', 'position') and of == 'frame': return [(st, mk('call', nm + ' of', v[0].a[1]))]
            if nm == 'identity' and not a and ('Translation' in name or 'Isometry' in name): return [(st, mk('call', 'moved', (ci(-1),)))]
            if nm in ('from', 'into', 'new') and of == 'position of' and len(v) == 1: return [(st, mk('call', 'moved', v[0].a[1]))]
            if nm in ('from_parts', 'mul') and len(v) == 2 and of in ('moved', 'rotation of', 'position of') and v[1].k == 'call' and v[1].a[0] in ('moved', 'rotation of'):
                same = of != 'rotation of' and v[1].a[0] == 'rotation of' and v[0].a[1] == v[1].a[1]
                return [(st, mk('call', 'placement', v[1].a[1] if same else (ci(-1),)))]
            if nm in ('into', 'from', 'to_homogeneous', 'to_matrix') and len(v) == 1 and of in ('moved', 'rotation of'): return [(st, mk('call', 'placement', (ci(-1),)))]
            if nm in ('into', 'from', 'to_homogeneous', 'to_matrix') and len(v) == 1 and v[0].k == 'call' and v[0].a[0] == 'placement': return [(st, v[0])]
            if nm == 'mul' and len(v) == 2 and of == 'placement':
                p = bare(v[1])
                if p.k != 'arr' or len(p.a[0]) != 4: return None
                F = [lin(x) for x in p.a[0]]
                if None in F or F[3] != {'': 1} or any(len(x) != 1 for x in F[:3]): return None
                keys = [list(x.items())[0] for x in F[:3]]
                i = keys[0][0].split('_')[0][1:]
                for c, (nm2, co) in enumerate(keys):      # the dehomogenized control point
                    if nm2 != 'P%s_%d' % (i, c) or abs(float(co) * weight(int(i)) - 1) > 1e-9: return [(st, arr([cf(math.nan)] * 3 + [cf(1.)]))]
                return [(st, arr([arg('S%d_%s_%d' % (v[0].a[1][0].a[1], i, c)) for c in range(3)] + [cf(1.)]))]
            return solve(I, st, name, info, a)
        args = [ncurve(m, ps, 'P', 4), ncurve(m, rs, 'R', 4), NONE if deg is None else some(ci(deg))]
        outs = evaluate(ctx, f, dict(zip(names(f), args)), 4, more=more, t=60)
        if outs is None or not seen: ctx.skip('sweep', inst, 'not interpreted'); continue
        lo, hi = domain(*rs)
        n = len(ps[1]) - ps[0] - 1
        F = [[[{'S%d_%d_%d' % (k, i, c): weight(i)} for c in range(3)] + [{'': weight(i)}] for i in range(n)] for k in range(len(seen))]
        even = len(seen) > 1 and all(abs(u - (lo + (hi - lo) * i / (len(seen) - 1))) < 1e-9 for i, u in enumerate(seen))
        ctx.ob('sweep', inst, even, f.span, '%s: the profile is placed at %s instead of evenly from %g to %g' % (inst, ', '.join('%g' % u for u in seen)[:80], lo, hi))
        inside = c32.contains([ps] * len(seen), F, deg)
        c32.judge(ctx, 'sweep', inst, f, outs, inside)
