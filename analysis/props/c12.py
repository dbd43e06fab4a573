"""C12 meshes are well formed: the lists a tessellation builds, extracted as value terms from the functions that build them.
Cells: the triangulation of a leaf cell is extracted with symbolic corners and every small pattern of extra vertices on its edges."""
from vf import *
import models
from meshlab import find_adt, build

def check(ctx):
    m = ctx.m
    ctx.rule('arrays', 'points, normals and uvs get one entry each per vertex, entry i of each from the same surface point')
    ctx.rule('faces', 'every face index refers to a vertex of the mesh, and the three are different vertices')
    ctx.rule('cell', 'the faces of a leaf cell cover its outline (corners and the neighbours\' extra vertices, in order) exactly once, all in the direction of the outline, none of them with three vertices of one edge')
    ctx.rule('evaluation', 'the point, normal and uv of a surface vertex are the evaluation of the surface at that uv')
    ctx.rule('unit', 'the normal of a surface vertex has unit length, except where the surface has no normal')
    ctx.rule('index map', 'triangulated regions and trimmed surfaces: the list of vertices and the numbering of the vertices follow the same enumeration, and each face uses the numbers of the three vertices of a triangle')
    ctx.rule('kept', 'a triangle of a region or trimmed surface is kept exactly when its centre is inside the exterior and inside no interior (or it is degenerate)')
    ctx.rule('sum', 'a sum of meshes has the vertices of its parts in order and their faces shifted by the vertices before them')
    ctx.rule('triangles', 'the triangles of a mesh are the vertices named by its faces, in order')
    ctx.assumptions.append('spade enumerates the vertices of an unchanged triangulation in the same order every time; the vertex lists of a cell edge are decided by C20')
    cells(ctx); evaluations(ctx); region(ctx); trimmed(ctx); polymesh(ctx)

# ---------------------------------------------------------------- cells
PATTERNS = [(1, 1, 1, 1), (2, 1, 1, 1), (1, 2, 1, 1), (1, 1, 2, 1), (1, 1, 1, 2), (2, 2, 1, 1), (2, 1, 2, 1), (2, 1, 1, 2), (1, 2, 2, 1), (1, 2, 1, 2), (1, 1, 2, 2),
            (3, 1, 1, 1), (1, 3, 1, 1), (1, 1, 3, 1), (1, 1, 1, 3), (2, 2, 2, 1), (2, 1, 2, 2), (2, 2, 2, 2), (3, 2, 1, 1), (1, 1, 4, 1), (1, 2, 3, 2), (5, 1, 1, 1)]

def node(m, i, leaf):
    return build(m, 'AdaptiveTessellationNode', {'id': ci(i), 'children': NONE if leaf else some(arr([ci(90), ci(91)])), 'corners': arr([arg('N%d_%d' % (i, k)) for k in range(4)]),
        'neighbors': arg('nb%d' % i), 'mid_points': arg('mp%d' % i), 'direction': arg('dir%d' % i), 'uv_center': arg('uc%d' % i)})

def cells(ctx):
    m = ctx.m
    fs = m.method('SurfaceTessellation', 'new')
    if len(fs) != 1 or not any(g.name == 'get_all_corners' for g in m.fns.values()): return ctx.skip('cell', 'SurfaceTessellation::new', 'builder not recognised')
    f = fs[0]
    names = [f.arg_names.get(i + 1) for i in range(f.nargs)]
    ty = {n: str(f.lty(i + 1)) for i, n in enumerate(names)}
    nodes_arg = [n for n in names if 'AdaptiveTessellationNode' in ty[n]]
    con_arg = [n for n in names if 'Option' in ty[n]]
    if len(nodes_arg) != 1 or len(con_arg) != 1: return ctx.skip('cell', f.id, 'arguments not recognised')
    n = 0
    runs = [[(True, p)] for p in PATTERNS] + [[(True, PATTERNS[0]), (False, None), (True, PATTERNS[3]), (True, PATTERNS[8]), (True, PATTERNS[0])], [(False, None), (True, PATTERNS[12]), (True, PATTERNS[0])], []]
    for tree in runs:
        nd = [node(m, i, leaf) for i, (leaf, _) in enumerate(tree)]
        if any(x is None for x in nd): return ctx.skip('cell', f.id, 'cell fields changed')
        lists = {}
        def corner_lists(I, st, name, info, args):
            if info['name'] != 'get_all_corners': return None
            x, k = I.value(st, args[0]), numeric(I.value(st, args[-1]))
            i = numeric(fld(x, 'id')) if x.k == 'adt' else None
            if i is None or k is None or not tree[int(i)][0]: return None
            L = [arg('V%d_%d_%d' % (i, k, j)) for j in range(tree[int(i)][1][int(k)])]
            lists[int(i), int(k)] = L
            return [(st, arr(L))]
        I = engine(ctx); I.unroll = 60; I.override = corner_lists
        inst = 'cells %s' % ' '.join('%d%d%d%d' % p if l else 'parent' for l, p in tree)
        try: outs = I.auto(f, {nodes_arg[0]: arr(nd), con_arg[0]: NONE})
        except Budget: ctx.skip('cell', inst, 'budget'); continue
        for s, r in outs:
            for fs_, t in deep_alts(r, s.f):
                n += mesh(ctx, f, inst, t, [([(k, v) for k in range(4) for v in lists.get((i, k), [])]) for i, (l, p) in enumerate(tree) if l])
    ctx.count('leaf cells decided', n)

def mesh(ctx, f, inst, t, polys):
    """t: mesh term; polys: per leaf cell its outline as [(edge, vertex)]"""
    L = {n: fld(t, n) for n in ('points', 'normals', 'uvs', 'faces')}
    if any(x.k != 'arr' for x in L.values()): ctx.skip('cell', inst, 'lists not explicit'); return 0
    P, N, U, F = ([*L[n].a[0]] for n in ('points', 'normals', 'uvs', 'faces'))
    if not ctx.ob('arrays', inst, len(P) == len(N) == len(U), f.span, '%d points, %d normals, %d uvs' % (len(P), len(N), len(U))): return 0
    base = []
    for i, (p, n, u) in enumerate(zip(P, N, U)):
        if not all(x.k == 'f' for x in (p, n, u)): return ctx.skip('arrays', inst, 'vertex %d not recognised' % i) or 0
        b = {x.a[0] for x in (p, n, u)}
        okk = len(b) == 1 and (p.a[1], n.a[1], u.a[1]) == ('point', 'normal', 'uv')
        ctx.ob('arrays', inst + ' entries', okk, f.span, 'vertex %d has point %s, normal %s, uv %s' % (i, show(p), show(n), show(u)))
        if not okk: return 0
        base.append(p.a[0])
    tris = []
    for x in F:
        if x.k != 'arr' or len(x.a[0]) != 3 or any(numeric(y) is None for y in x.a[0]): return ctx.skip('faces', inst, 'face not recognised: %s' % show(x)) or 0
        tri = tuple(int(numeric(y)) for y in x.a[0])
        if not ctx.ob('faces', inst, all(0 <= y < len(P) for y in tri) and len(set(tri)) == 3, f.span, 'face %s of a mesh of %d vertices' % (tri, len(P))): return 0
        tris.append(tuple(base[y] for y in tri))
    done = 0
    rest = list(tris)
    for poly in polys:
        vs = [v for _, v in poly]
        edges_of = {}
        for q, (k, v) in enumerate(poly):
            edges_of.setdefault(v, set()).add(k)
            if q and poly[q - 1][0] != k: edges_of[v].add(poly[q - 1][0])
        edges_of[poly[0][1]].add(poly[-1][0])
        own = [t_ for t_ in rest if any(v in vs for v in t_)]
        rest = [t_ for t_ in rest if t_ not in own]
        cnt = {}
        for t_ in own:
            for i in range(3):
                e = (t_[i], t_[(i + 1) % 3])
                cnt[e] = cnt.get(e, 0) + 1
        want = {(vs[i], vs[(i + 1) % len(vs)]) for i in range(len(vs))}
        net = {e for e, c in cnt.items() if c - cnt.get(e[::-1], 0) > 0}
        key = inst + ' outline'
        okk = net == want and all(c == 1 for c in cnt.values())
        ctx.ob('cell', key, okk, f.span, 'the faces of a cell with %s vertices on its edges do not cover it once: %s' % ('/'.join(str(sum(1 for k, _ in poly if k == q)) for q in range(4)), [tuple(show(v, 3) for v in t_) for t_ in own]))
        flat = [t_ for t_ in own if set.intersection(*[edges_of.get(v, set()) for v in t_])]
        ctx.ob('cell', inst + ' flat', not flat, f.span, 'a face has all three vertices on one edge of the cell: %s' % [tuple(show(v, 3) for v in t_) for t_ in flat[:1]])
        done += 1
    ctx.ob('cell', inst + ' only leaves', not rest, f.span, 'faces that belong to no leaf cell: %s' % [tuple(show(v, 3) for v in t_) for t_ in rest[:1]])
    return done

# ---------------------------------------------------------------- evaluation of a vertex
def deriv_of(t):
    """(k, l, u, v) when the term is the coordinates of the (k, l) derivative of an evaluation at (u, v)"""
    ix = []
    while t.k == 'elem' and len(ix) < 2:
        if not isint(t.a[1]): return None
        ix.append(int(numeric(t.a[1]))); t = t.a[0]
    if len(ix) == 2 and t.k == 'call' and t.a[0].split('::')[-1] in ('rational_derivatives', 'derivatives') and len(t.a[1]) == 4:
        return ix[1], ix[0], t.a[1][1], t.a[1][2], t.a[0].split('::')[-1], t.a[1][3]
    return None

def evaluations(ctx):
    """every surface point built during tessellation"""
    m = ctx.m
    got = {}
    new = m.method('SurfacePoint', 'new')
    if len(new) != 1: return ctx.skip('evaluation', 'SurfacePoint::new', 'constructor not recognised')
    pos = {}
    for fs, r, _ in auto(ctx, new[0])[1] or []:
        for n in ('uv', 'point', 'normal'):
            x = fld(r, n)
            if x.k == 'arg': pos[n] = [i for i in range(new[0].nargs) if new[0].arg_names.get(i + 1) == x.a[0]][0]
            elif clean(r): ctx.ob('evaluation', 'SurfacePoint::new ' + n, False, new[0].span, '%s is set to %s' % (n, show(x)))
    if set(pos) != {'uv', 'point', 'normal'} or len(set(pos.values())) != 3: return ctx.skip('evaluation', 'SurfacePoint::new', 'constructor not recognised')
    def grab(I, st, name, info, args):
        if info['name'] == 'new' and len(args) == new[0].nargs and name.split('::')[-2:-1] and 'SurfacePoint' in name:
            v = [I.value(st, a) for a in args]
            got.setdefault(tuple(v[pos[n]] for n in ('uv', 'point', 'normal')), (I, st.f))
        return None
    tops = [g for g in m.fns.values() if g.kind != 'Closure' and g.span.startswith('src/tessellation') and (g.name in ('tessellate', 'constrained_tessellate') and 'NurbsSurface' in (g.self_adt() or '') or g.name in ('evaluate_mid_point', 'center') and 'Node' in (g.self_adt() or '') or g.name == 'new' and 'BoundaryEvaluation' in (g.self_adt() or ''))]
    for f in tops:
        I = engine(ctx, opaque=lambda g: True if g.name in ('rational_derivatives', 'derivatives') else None)
        I.override = grab
        try: I.auto(f)
        except Budget: ctx.skip('evaluation', f.id, 'budget')
    n = 0
    for (uv, p, nm), (_, known) in got.items():
        for g, (a, b, c) in [(g2, z) for g1, x in deep_alts(tup(uv, p, nm), EMPTY, 16) for g2, z in [(g1, x.a[0] if x.k == 'tup' else None)] if z]:
            u, v = elem(a, ci(0)), elem(a, ci(1))
            pts = [deriv_of(x) for x in candidates(b)]
            nrm = normal_of(c)
            sites = 'vertex at %s' % show(a, 4)[:80]
            if pts and pts[0]:
                k, l, uu, vv, nmx, _ = pts[0]
                ctx.ob('evaluation', 'point %d' % n, (k, l) == (0, 0) and same2(uu, u) and same2(vv, v) and nmx == 'rational_derivatives', 'src/tessellation', '%s: point is the (%d, %d) derivative at (%s, %s) by %s' % (sites, k, l, show(uu, 4), show(vv, 4), nmx))
            else: ctx.skip('evaluation', 'point %d' % n, 'point not recognised')
            if nrm:
                (k1, l1, u1, v1, n1, o1), (k2, l2, u2, v2, n2, o2) = nrm
                okk = (k1, l1) == (1, 0) and (k2, l2) == (0, 1) and all(same2(x, u) for x in (u1, u2)) and all(same2(x, v) for x in (v1, v2)) and n1 == n2 == 'rational_derivatives'
                ctx.ob('evaluation', 'normal %d' % n, okk, 'src/tessellation', '%s: normal is the cross product of the (%d, %d) derivative at (%s, %s) and the (%d, %d) derivative at (%s, %s)' % (sites, k1, l1, show(u1, 3), show(v1, 3), k2, l2, show(u2, 3), show(v2, 3)))
                if not find(c, lambda x: x.k == 'call' and x.a[0].split('::')[-1] in ('normalize', 'try_normalize', 'unit', 'new_normalize', 'cap_magnitude', 'unscale')) and clean(c):
                    small = [x for x, p in list(g) + list(known) if find(x, lambda y: y.k == 'call' and y.a[0].split('::')[-1] in ('norm', 'norm_squared', 'magnitude', 'magnitude_squared', 'dot', 'lp_norm') or y.k == 'loop')]
                    if not small: ctx.ob('unit', 'normal %d' % n, False, 'src/tessellation', '%s: the normal is not scaled to unit length: %s' % (sites, show(c, 4)[:150]))
                else: ctx.ob('unit', 'normal %d' % n)
            else: ctx.skip('evaluation', 'normal %d' % n, 'normal not recognised')
            n += 1
    ctx.count('evaluated surface vertices', n)
    trim_vertices(ctx)

def trim_vertices(ctx):
    """vertices of a trimmed surface: (point, normal, uv) handed to the triangulation"""
    m = ctx.m
    V = [g for g in m.fns.values() if g.name == 'new' and (g.self_adt() or '').endswith('trimmed_surface::Vertex')]
    if len(V) != 1: return ctx.skip('evaluation', 'trimmed vertex', 'constructor not recognised')
    pos = {}
    for fs, r, _ in auto(ctx, V[0])[1] or []:
        for n in ('point', 'normal', 'uv'):
            x = fld(r, n)
            if x.k == 'arg': pos[n] = [i for i in range(V[0].nargs) if V[0].arg_names.get(i + 1) == x.a[0]][0]
    if len(set(pos.values())) != 3: return ctx.skip('evaluation', 'trimmed vertex', 'constructor not recognised')
    for nm in ('tessellate', 'constrained_tessellate'):
        fs = [g for g in m.fns.values() if g.name == nm and (g.self_adt() or '').endswith('TrimmedSurface')]
        if len(fs) != 1: continue
        got = {}
        def grab(I, st, name, info, args):
            if info['name'] == 'new' and 'Vertex' in name and len(args) == V[0].nargs:
                got.setdefault(tuple(I.value(st, args[pos[n]]) for n in ('point', 'normal', 'uv')))
        I = engine(ctx, inline=lambda g: True if g.span.startswith('src/tessellation/trimmed') and 'iterate' not in g.name else None)
        I.override = grab
        try: I.auto(fs[0])
        except Budget: ctx.skip('evaluation', nm, 'budget'); continue
        for i, (p, n, uv) in enumerate(sorted(got, key=lambda x: x[2].n)):
            key = 'trimmed %s vertex %d' % (nm, i)
            S = fld(arg(fs[0].arg_names.get(1)), 'surface')
            if p.k == n.k == uv.k == 'elem' and all(x.a[0].k == 'f' for x in (p, n, uv)):
                ctx.ob('evaluation', key, p.a[1] is n.a[1] is uv.a[1] and [x.a[0].a[1] for x in (p, n, uv)] == ['points', 'normals', 'uvs'] and p.a[0].a[0] is n.a[0].a[0] is uv.a[0].a[0], fs[0].span, 'vertex from point %s, normal %s, uv %s' % (show(p, 3), show(n, 3), show(uv, 3)))
            elif all(x.k == 'call' and len(x.a[1]) == 3 and x.a[0].split('::')[-1].endswith('_at') for x in (p, n)):
                c = elem(uv, ci(0)), elem(uv, ci(1))
                okk = (p.a[0].split('::')[-1], n.a[0].split('::')[-1]) == ('point_at', 'normal_at') and p.a[1][0] is n.a[1][0] is S and all(x.a[1][1] is c[0] and x.a[1][2] is c[1] for x in (p, n))
                ctx.ob('evaluation', key, okk, fs[0].span, 'vertex at uv %s has point %s and normal %s' % (show(uv, 3), show(p, 4), show(n, 4)))
            else: ctx.skip('evaluation', key, 'vertex not recognised'); continue
            b = [x for x in find(uv, lambda x: x.k == 'call' and x.a[0].split('::')[-1] == 'point_at' and len(x.a[1]) == 2)]
            if nm == 'constrained_tessellate' and len(b) == 1 and mentions(b[0].a[1][1], fs[0].arg_names.get(2)):
                C, t = b[0].a[1]
                ext = lambda x: bool(find(x, lambda y: y.k == 'f' and y.a[1] == 'exterior'))
                inn = lambda x: {y.a[1] for y in find(x, lambda y: y.k == 'elem' and y.a[0].k == 'f' and y.a[0].a[1] == 'interiors')}
                okk = ext(C) == ext(t) and inn(C) == inn(t)
                ctx.ob('evaluation', key + ' parameter', okk or not (ext(C) or inn(C)) or not (ext(t) or inn(t)), fs[0].span, 'boundary curve %s is evaluated at the parameters of another one: %s' % (show(C, 4), show(t, 4)))
def mentions(t, name): return bool(find(t, lambda x: x.k == 'arg' and x.a[0] == name))
def same2(x, y): return x is y or not clean(x) or not clean(y)
def candidates(t):
    if deriv_of(t): return [t]
    if t.k == 'call' and len(t.a[1]) == 1: return candidates(t.a[1][0])
    return []
def normal_of(t):
    x = find(t, lambda y: y.k in ('call', 'op') and y.a[0].split('::')[-1] == 'cross')
    if len(x) != 1: return None
    a = x.pop().a[1]
    d = [deriv_of(y) for y in a] if len(a) == 2 else []
    return d if len(d) == 2 and all(d) else None

# ---------------------------------------------------------------- region and trimmed surface
def tri_mesh(ctx, f, inst, t, lists):
    """faces: seq of [map[fix(v0)], map[fix(v1)], map[fix(v2)]]; lists: the vertex lists"""
    faces = fld(t, 'faces')
    if faces.k != 'seq': return ctx.skip('index map', inst, 'faces not recognised')
    e = faces.a[0]
    if e.k != 'arr' or len(e.a[0]) != 3: return ctx.skip('index map', inst, 'face not recognised')
    maps, ks, fcs = [], [], []
    for x in e.a[0]:
        if x.k != 'elem' or x.a[0].k != 'call' or x.a[0].a[0] != 'collect_map': return ctx.skip('index map', inst, 'index not recognised: %s' % show(x, 4))
        maps.append(x.a[0])
        h = x.a[1]
        if h.k == 'call' and len(h.a[1]) == 1 and h.a[1][0].k == 'elem' and isint(h.a[1][0].a[1]):
            ks.append(int(numeric(h.a[1][0].a[1]))); fcs.append((h.a[0], h.a[1][0].a[0]))
        else: return ctx.skip('index map', inst, 'handle not recognised: %s' % show(h, 4))
    if len(set(maps)) != 1: return ctx.skip('index map', inst, 'several maps')
    ctx.ob('index map', inst + ' corners', sorted(ks) == [0, 1, 2] and len(set(fcs)) == 1, f.span, 'a face uses the triangle corners %s' % ks)
    if len(set(fcs)) != 1: return
    turn = ks in ([0, 1, 2], [1, 2, 0], [2, 0, 1])
    ctx.ob('index map', inst + ' orientation', turn or sorted(ks) != [0, 1, 2], f.span, 'a face lists the corners of its triangle in the order %s' % ks)
    src = maps[0].a[1][0]
    if src.k != 'seq' or src.a[0].k != 'tup' or len(src.a[0].a[0]) != 2 or not isinstance(src.a[3], T): return ctx.skip('index map', inst, 'map not recognised')
    hd, num = src.a[0].a[0]
    if any(tg[0] in ('filter', 'skip', 'take', 'rev', 'step') for tg in src.a[2]): return ctx.skip('index map', inst, 'map over a selection')
    if num.k == 'lin' and all(x is src.a[3] for x, _ in num.a[0]) or num is src.a[3] or clean(num): pass
    else: return ctx.skip('index map', inst, 'numbering not recognised')
    v = [x for x in find(hd, lambda x: x.k == 'elem' and x.a[1] is src.a[3])]
    if len(v) != 1: return ctx.skip('index map', inst, 'enumeration not recognised')
    verts = v.pop().a[0]
    ctx.ob('index map', inst + ' numbering', num is src.a[3], f.span, 'vertex number i is recorded as %s' % show(num, 5))
    ctx.ob('index map', inst + ' handle', hd.k == 'call' and hd.a[0] == fcs[0][0] and hd.a[1][0].k == 'elem', f.span, 'the map is keyed by %s but looked up by %s' % (show(hd, 3), fcs[0][0]))
    for n, q in lists:
        L = fld(t, n)
        if L.k != 'seq' or not isinstance(L.a[3], T): ctx.skip('index map', '%s %s' % (inst, n), 'list not recognised'); continue
        w = [x for x in find(L.a[0], lambda x: x.k == 'elem' and x.a[1] is L.a[3])]
        if len(w) != 1: ctx.skip('index map', '%s %s' % (inst, n), 'element not recognised'); continue
        x = w.pop()
        okk = x.a[0] is verts and not L.a[2]
        if not okk and (not clean(x.a[0]) or L.a[2] and not any(tg[0] == 'filter' for tg in L.a[2])) and x.a[0].k != 'call': ctx.skip('index map', '%s %s' % (inst, n), 'enumeration not recognised'); continue
        ctx.ob('index map', '%s %s' % (inst, n), okk, f.span, '%s lists %s, the numbering follows %s' % (n, show(L, 5), show(verts, 4)))
        if q == 'xy':
            e0 = L.a[0]
            okk = e0.k == 'arr' and len(e0.a[0]) == 2 and all(y is elem(x, ci(i)) or y is fld(x, 'xy'[i]) for i, y in enumerate(e0.a[0])) or e0 is x
            ctx.ob('arrays', '%s %s' % (inst, n), okk, f.span, 'vertex of a region mesh is %s' % show(e0, 5))
        else: ctx.ob('arrays', '%s %s' % (inst, n), L.a[0] is fld(x, q), f.span, 'entry of %s is %s' % (n, show(L.a[0], 5)))

def kept(ctx, f, inst, ext_opt, over):
    """faces kept for every answer of the containment tests of the centre; over(ext, ints): arguments for given loops"""
    m = ctx.m
    for e in ('none', True, False) if ext_opt else (True, False):
        for ints in ((), (False,), (True,), (False, False), (False, True), (True, False), (True, True)):
            E = arg('EXT'); IN = [arg('INT%d' % i) for i in range(len(ints))]
            def contains(I, st, name, info, args):
                if info['name'] != 'contains' or not args: return None
                x = I.value(st, args[0])
                who = [y for y in [E] + IN if find(x, lambda z: z is y)]
                if len(who) != 1: return None
                return [(st, ok(TRUE if (e is True if who[0] is E else ints[IN.index(who[0])]) else FALSE))]
            I = engine(ctx, opaque=lambda g: True if g.name in ('tessellate_uv_curve_adaptive', 'iterate_uv_curve_tessellation') or g.name == 'tessellate' and g is not f else None, inline=lambda g: True if g.span.startswith('src/tessellation/trimmed') and 'iterate' not in g.name else None)
            I.unroll = 20; I.override = contains
            a = over(some(E) if e != 'none' else NONE, E, arr(IN))
            if a is None: return ctx.skip('kept', inst, 'fields changed')
            try: outs = I.auto(f, a)
            except Budget: ctx.skip('kept', inst, 'budget'); continue
            key = '%s exterior %s, interiors %s' % (inst, e, list(ints))
            res = set()
            for s, r in outs:
                for g, t in alts(r, s.f):
                    if not is_adt(t, RES, 'Ok') or t.a[3][0].k != 'adt': continue
                    F = fld(t.a[3][0], 'faces')
                    if F.k == 'arr' and not F.a[0]: res.add('dropped'); continue
                    if F.k != 'seq': res.add('?'); continue
                    cs_ = [tg[1] for tg in F.a[2] if tg[0] == 'filter']
                    if len(cs_) != len(F.a[2]): res.add('?'); continue
                    v = 'kept'
                    for c in cs_:
                        c = simplify(c, g)
                        if has(c, 'contains'): v = '?'; break
                        if c is FALSE or c.k == 'gphi' and all(x is FALSE for _, x in c.a[0]): v = 'dropped'; break
                    res.add(v)
            if len(res) != 1 or '?' in res: ctx.skip('kept', key, 'not decided: %s' % sorted(res)); continue
            want = 'kept' if e != False and not any(ints) else 'dropped'
            ctx.ob('kept', key, want in res, f.span, 'a triangle whose centre is %s the exterior and inside %d of %d interiors is %s' % ({'none': 'on a surface without', True: 'inside', False: 'outside'}[e], sum(ints), len(ints), res.pop()))

def has(t, name): return bool(find(t, lambda x: x.k == 'call' and x.a[0].split('::')[-1] == name))

def region(ctx):
    m = ctx.m
    fs = [g for g in m.fns.values() if g.name == 'tessellate' and (g.self_adt() or '').endswith('region::Region')]
    if len(fs) != 1: return ctx.anchor_missing('tessellate of a Region')
    f = fs[0]
    I, outs = auto(ctx, f)
    kept(ctx, f, 'region', False, lambda eo, e, ints: None if (x := build(m, 'Region', {'exterior': e, 'interiors': ints})) is None else {f.arg_names.get(1): x})
    if outs is None: return ctx.skip('index map', 'region', 'budget')
    for fs_, r, _ in outs:
        for g, t in alts(r, fs_):
            if is_adt(t, RES, 'Ok') and t.a[3][0].k == 'adt': tri_mesh(ctx, f, 'region', t.a[3][0], [('vertices', 'xy')])

def trimmed(ctx):
    m = ctx.m
    for nm in ('tessellate', 'constrained_tessellate'):
        fs = [g for g in m.fns.values() if g.name == nm and (g.self_adt() or '').endswith('TrimmedSurface')]
        if len(fs) != 1: ctx.anchor_missing('%s of a TrimmedSurface' % nm); continue
        f = fs[0]
        I, outs = auto(ctx, f, inline=lambda g: True if g.span.startswith('src/tessellation/trimmed') and 'iterate' not in g.name else None)
        con = find_adt(m, 'TrimmedSurfaceConstraints')
        def over(eo, e, ints):
            x = build(m, 'TrimmedSurface', {'surface': arg('S'), 'exterior': eo, 'interiors': ints})
            if x is None: return None
            a = {f.arg_names.get(1): x}
            if nm == 'constrained_tessellate':
                c = build(m, 'TrimmedSurfaceConstraints', {'exterior': arg('CE'), 'interiors': arr([arg('CI%d' % i) for i in range(len(ints.a[0]))])})
                if c is None: return None
                a[f.arg_names.get(2)] = c
            return a
        kept(ctx, f, 'trimmed surface ' + nm, True, over)
        if outs is None: ctx.skip('index map', 'trimmed surface ' + nm, 'budget'); continue
        for fs_, r, _ in outs:
            for g, t in alts(r, fs_):
                if is_adt(t, RES, 'Ok') and t.a[3][0].k == 'adt': tri_mesh(ctx, f, 'trimmed surface %s' % nm, t.a[3][0], [('points', 'point'), ('normals', 'normal'), ('uvs', 'uv')])

# ---------------------------------------------------------------- polygon meshes
def polymesh(ctx):
    m = ctx.m
    add = [g for g in m.fns.values() if g.name == 'add' and (g.self_adt() or '').endswith('PolygonMesh')]
    sm = [g for g in m.fns.values() if g.name == 'sum' and 'PolygonMesh' in g.id]
    tr = m.method('PolygonMesh', 'triangles')
    a0 = find_adt(m, 'PolygonMesh')
    if len(add) != 1: ctx.anchor_missing('Add of PolygonMesh')
    if len(sm) != 1: ctx.anchor_missing('Sum of PolygonMesh')
    if a0 is None or len(add) != 1: return
    names = [x['n'] for x in a0['v'][0]['f']]
    if set(names) != {'vertices', 'faces'}: return ctx.skip('sum', 'fields', 'fields changed')
    def pm(tag, nv, faces): return build(m, 'PolygonMesh', {'vertices': arr([arg('%s%d' % (tag, i)) for i in range(nv)]), 'faces': arr([arr([ci(x) for x in y]) for y in faces])})
    A, B, C = pm('a', 3, [(0, 1, 2)]), pm('b', 4, [(0, 1, 2), (0, 2, 3)]), pm('c', 5, [(4, 1, 0)])
    E0 = pm('e', 0, [])
    def expect(parts):
        vs, fs = [], []
        for p in parts:
            b = len(vs)
            vs += list(fld(p, 'vertices').a[0]); fs += [tuple(int(numeric(x)) + b for x in y.a[0]) for y in fld(p, 'faces').a[0]]
        return vs, fs
    def compare(f, inst, t, parts):
        V, F = fld(t, 'vertices'), fld(t, 'faces')
        if V.k != 'arr' or F.k != 'arr' or not all(y.k == 'arr' and all(numeric(x) is not None for x in y.a[0]) for y in F.a[0]): return ctx.skip('sum', inst, 'result not explicit: %s' % show(t, 4)[:80])
        vs, fs = expect(parts)
        ctx.ob('sum', inst + ' vertices', list(V.a[0]) == vs, f.span, 'vertices %s' % show(V, 3))
        ctx.ob('sum', inst + ' faces', [tuple(int(numeric(x)) for x in y.a[0]) for y in F.a[0]] == fs, f.span, 'faces %s, expected %s' % (show(F, 4), fs))
    # symbolic: any two meshes
    f = add[0]
    n1, n2 = (f.arg_names.get(i) for i in (1, 2))
    I, outs = auto(ctx, f)
    for fs, r, _ in outs or []:
        for g, t in alts(r, fs):
            V, F = fld(t, 'vertices'), fld(t, 'faces')
            x, y = arg(n1), arg(n2)
            wantV = cat([fld(x, 'vertices'), fld(y, 'vertices')])
            if V.k == 'cat' and clean(V): ctx.ob('sum', 'add vertices', V is wantV, f.span, 'vertices of a sum are %s' % show(V))
            else: ctx.skip('sum', 'add vertices', show(V, 4))
            if F.k == 'cat' and len(F.a[0]) == 2 and F.a[0][1].k == 'seq' and clean(F):
                p, q = F.a[0]
                ix = q.a[3]
                fq = elem(fld(y, 'faces'), ix)
                w = [op('Add', elem(fq, ci(i)), length(fld(x, 'vertices'))) for i in range(3)]
                got = [elem(q.a[0], ci(i)) for i in range(3)]
                if any(y.k != 'lin' and not any(y is elem(fq, ci(i)) for i in range(3)) for y in got): ctx.skip('sum', 'add faces', show(F, 4)); continue
                ctx.ob('sum', 'add faces', p is fld(x, 'faces') and got == w and not q.a[2], f.span, 'faces of a sum are %s' % show(F, 8))
            else: ctx.skip('sum', 'add faces', show(F, 4))
    for parts in ((A, B), (B, A), (E0, C), (C, E0)):
        I = engine(ctx); I.unroll = 40
        try: outs = I.auto(f, {n1: parts[0], n2: parts[1]})
        except Budget: continue
        for s, r in outs: compare(f, 'add', r, parts)
    if len(sm) == 1:
        g = sm[0]
        nm = g.arg_names.get(1)
        for parts in ((A, B, C), (C, A), (B,), ()):
            I = engine(ctx, inline=lambda h: True if h is f else None); I.unroll = 40
            try: outs = I.auto(g, {nm: arr(parts)})
            except Budget: continue
            for s, r in outs: compare(g, 'sum of %d' % len(parts), r, parts)
    if len(tr) == 1:
        I = engine(ctx); I.unroll = 40
        for s, r in I.auto(tr[0], {tr[0].arg_names.get(1): B}):
            w = arr([arr([arg('b%d' % i) for i in x]) for x in [(0, 1, 2), (0, 2, 3)]])
            if r.k == 'arr' and clean(r): ctx.ob('triangles', 'PolygonMesh::triangles', r is w, tr[0].span, 'triangles are %s' % show(r, 4))
            else: ctx.skip('triangles', 'PolygonMesh::triangles', show(r, 4))
