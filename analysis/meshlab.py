"""Tessellation of an abstract surface: grid parameters are constants, the geometry stays symbolic.  The value-flow engine yields
the mesh (constant uvs and faces, symbolic points and normals) that the code builds for a given grid and division pattern."""
from vf import *
SURF = 'surface::nurbs_surface::NurbsSurface'
EPS = 1e-9

def find_adt(m, end):
    a = [x for x in m.adts if x['path'].split('::')[-1] == end]
    return a[0] if len(a) == 1 else None
def build(m, end, vals):
    """value of a struct by field names; None when the fields are not the expected ones"""
    a = find_adt(m, end)
    if a is None: return None
    names = [q['n'] for q in a['v'][0]['f']]
    if set(names) != set(vals): return None
    return adt(a['path'], a['v'][0]['n'], names, [vals[n] for n in names])
def knots(m, ks): 
    a = find_adt(m, 'KnotVector')
    return adt(a['path'], a['v'][0]['n'], [a['v'][0]['f'][0]['n']], (arr([cf(k) for k in ks]),)) if a and len(a['v'][0]['f']) == 1 else None
def clamped(p, n):
    """knots of a clamped degree p vector with n spans of length 1"""
    return [0.0] * (p + 1) + [float(i) for i in range(1, n)] + [float(n)] * (p + 1)
def surface(m, nu, nv, pu=1, pv=1, u0=0.0, v0=10.0):
    """nu x nv spans; the domain is [u0, u0+nu] x [v0, v0+nv]"""
    cps = arr([arr([arg('P%d_%d' % (i, j)) for j in range(nv + pv)]) for i in range(nu + pu)])
    ku, kv = knots(m, [u0 + k for k in clamped(pu, nu)]), knots(m, [v0 + k for k in clamped(pv, nv)])
    if ku is None or kv is None: return None
    return build(m, 'NurbsSurface', {'u_degree': ci(pu), 'v_degree': ci(pv), 'u_knots': ku, 'v_knots': kv, 'control_points': cps})
def options(m, **k):
    d = {'norm_tolerance': arg('TOL'), 'min_divs_u': ci(1), 'min_divs_v': ci(1), 'min_depth': ci(0), 'max_depth': ci(8)}
    d.update({n: ci(v) for n, v in k.items()})
    return build(m, 'AdaptiveTessellationOptions', d)
def constraints(m, **k):
    return build(m, 'BoundaryConstraints', {s: (some(arr([cf(x) for x in k[s]])) if s in k else NONE) for s in ('v_parameters_at_u_min', 'u_parameters_at_v_min', 'v_parameters_at_u_max', 'u_parameters_at_v_max')})

class Mesh: pass

def mesh_of(ctx, f, args, decide=None, uvs_const=True, extra=None, t=40):
    """(mesh, reason): runs f on the arguments; decide(corner uvs, depth) -> None|'U'|'V'|'Both' replaces the curvature test"""
    m = ctx.m
    asked = []
    def inl(g): return True if g.span.startswith(('src/tessellation', 'src/knot')) or g.span.startswith('src/surface') and g.name.endswith(('domain', 'regular_tessellate', 'span')) else None
    def opq(g): return True if g.name in ('rational_derivatives', 'derivatives', 'point_at') else None
    I = engine(ctx, inline=inl, opaque=opq)
    I.unroll = 300
    I.budget, I.t_end = 400000, time.time() + t
    def over(I, st, name, info, args):
        nm = info['name']
        if nm in ('default_epsilon', 'epsilon') and not args: return [(st, cf(EPS))]
        if extra:
            r = extra(I, st, name, info, args)
            if r is not None: return r
        if decide is not None and nm == 'should_divide' and len(args) >= 3:
            node = I.value(st, args[0])
            cs_ = fld(node, 'corners')
            uv = [[numeric(elem(fld(elem(cs_, ci(i)), 'uv'), ci(j))) for j in (0, 1)] for i in range(4)]
            d = [numeric(x) for x in args if numeric(x) is not None]
            if any(None in c for c in uv) or not d: raise Budget('cell not recognised')
            r = decide(uv, int(d[-1]))
            asked.append((uv, r))
            if r is None: return [(st, NONE)]
            p = [x['path'] for x in m.adts if x['path'].endswith('DividableDirection')]
            return [(st, some(adt(p[0], r, (), ())))]
    I.override = over
    try: outs = I.auto(f, args)
    except Budget as e: return None, 'budget: %s' % e
    res = [(s, t) for s, r in outs for _, t in alts(r, s.f)]
    if len(res) != 1: return None, '%d outcomes' % len(res)
    s, r = res[0]
    M = Mesh()
    M.asked, M.term, M.I = asked, r, I
    try:
        M.points, M.normals, M.uvs, M.faces = (fld(r, n) for n in ('points', 'normals', 'uvs', 'faces'))
        for n in ('points', 'normals', 'uvs', 'faces'):
            x = getattr(M, n)
            if x.k != 'arr': return None, '%s is not an explicit list' % n
            setattr(M, n, list(x.a[0]))
        M.uv = [tuple(numeric(elem(x, ci(j))) for j in (0, 1)) for x in M.uvs]
        M.tri = [tuple(numeric(x) for x in y.a[0]) for y in M.faces]
    except Exception as e: return None, 'mesh not recognised: %s' % e
    if any(None in y for y in M.tri): return None, 'faces are not constant'
    if uvs_const and any(None in y for y in M.uv): return None, 'uvs are not constant'
    return M, ''

def area(M, t):
    (ax, ay), (bx, by), (cx, cy) = (M.uv[i] for i in t)
    return ((bx - ax) * (cy - ay) - (cx - ax) * (by - ay)) / 2
def key(p): return (round(p[0], 6), round(p[1], 6))
def open_edges(M, box):
    """directed edges without their opposite that are not on the border of the box, split at the vertices lying on them on the border"""
    (u0, u1), (v0, v1) = box
    cnt = {}
    for t in M.tri:
        for i in range(3):
            e = (key(M.uv[t[i]]), key(M.uv[t[(i + 1) % 3]]))
            cnt[e] = cnt.get(e, 0) + 1
    out = []
    for (a, b), n in sorted(cnt.items()):
        if cnt.get((b, a), 0) == n: continue
        border = a[0] == b[0] and a[0] in (u0, u1) or a[1] == b[1] and a[1] in (v0, v1)
        if not border or n > 1: out.append((a, b))
    return out
def eval_uv(t):
    """(u, v) of every surface evaluation a term depends on, with the derivative order accessed: set of (u, v)"""
    return {tuple(numeric(x) for x in c.a[1][1:3]) for c in find(t, lambda x: x.k == 'call' and x.a[0].split('::')[-1] in ('rational_derivatives', 'point_at') and len(x.a[1]) >= 3)}
def deriv(t):
    """(k, l) when the term is the (k, l) derivative of a surface evaluation"""
    c = t
    ix = []
    while c.k == 'elem' and len(ix) < 2: ix.append(numeric(c.a[1])); c = c.a[0]
    if c.k == 'call' and c.a[0].split('::')[-1] == 'rational_derivatives' and len(ix) == 2: return tuple(reversed(ix))
    return None
