"""C20 adaptive tessellation: the grid of initial cells, the division of a cell and the vertex lists of cell edges, extracted as value
terms and compared with geometry (which cell lies across which edge), not with an index scheme."""
from vf import *
from meshlab import *
import itertools

SIDES = ('south', 'east', 'north', 'west')
def tess(g): return True if g.span.startswith('src/tessellation') else None
def stop(g): return True if g.name in ('rational_derivatives', 'derivatives', 'point_at', 'normal_at') else None

def check(ctx):
    m = ctx.m
    ctx.rule('grid', 'initial cells are numbered in order and their four corners are the left-bottom, right-bottom, right-top and left-top of one rectangle; together they tile the domain')
    ctx.rule('neighbour', 'the neighbour of a cell on a side is the cell whose opposite edge has the same end points, and none at the border')
    ctx.rule('grid lines', 'constraint parameters of a side are grid lines of their own direction')
    ctx.rule('border', 'with constraints, exactly the vertices on a constrained side of the domain are replaced, by the closest of that side\'s constraint points; all other vertices stay')
    ctx.rule('children', 'a divided cell gets two children, the next two numbers; together they tile it, sharing two mid points evaluated at the middle of the two cut edges')
    ctx.rule('child neighbours', 'a child keeps the outer neighbour on every side it inherits and its sibling is the neighbour across the division')
    ctx.rule('recursion', 'both children are examined one level deeper, in the other direction')
    ctx.rule('edge list', 'the vertices along an edge of a divided cell are those of its children on that edge, in the order of the outline')
    ctx.rule('adjacent', 'a leaf lists, per edge, its own corner and then exactly the vertices of the neighbour\'s opposite edge that lie strictly between the ends of the edge, in reverse order')
    ctx.assumptions.append('order of constants and of the given parameters; the closest point is taken from the searched list')
    grid(ctx); borders(ctx); divide(ctx); adjacent(ctx)

def opt(m, t):
    """None / int of an Option<usize> term, or '?'"""
    if is_adt(t, OPT, 'None'): return None
    if is_adt(t, OPT, 'Some') and numeric(t.a[3][0]) is not None: return int(numeric(t.a[3][0]))
    return '?'
def uv(sp):
    u = fld(sp, 'uv')
    return tuple(numeric(elem(u, ci(j))) for j in (0, 1))

def entry(ctx, nm):
    fs = [g for g in ctx.m.fns.values() if g.name == nm and 'NurbsSurface' in (g.self_adt() or '') and g.span.startswith('src/tessellation')]
    if len(fs) != 1: ctx.anchor_missing('%s of a NurbsSurface' % nm); return None
    return fs[0]

def nodes_of(ctx, f, args, decide=None):
    """the cells handed to the triangulation"""
    m = ctx.m
    got = []
    def inl(g): return True if g.span.startswith(('src/tessellation', 'src/knot')) or g.span.startswith('src/surface') and g.name.endswith(('domain', 'span')) else None
    I = engine(ctx, inline=inl, opaque=stop)
    I.unroll, I.budget, I.t_end = 300, 400000, time.time() + 40
    def over(I, st, name, info, a):
        nm = info['name']
        if nm in ('default_epsilon', 'epsilon') and not a: return [(st, cf(EPS))]
        if nm == 'new' and 'SurfaceTessellation' in name and len(a) >= 2:
            for x in a:
                v = I.value(st, x)
                if v.k == 'arr' and v.a[0] and all(y.k == 'adt' and 'corners' in y.a[2] for y in v.a[0]): got.append(list(v.a[0]))
            return [(st, mk('call', name, tuple(I.value(st, x) for x in a)))]
        if nm == 'should_divide': return [(st, NONE)]
    I.override = over
    try: I.auto(f, args)
    except Budget: return None
    return got[0] if len(got) == 1 else None

def grid(ctx):
    m = ctx.m
    plain, con = entry(ctx, 'tessellate'), entry(ctx, 'constrained_tessellate')
    if not plain or not con: return
    cases = []
    for nu, nv, pu, pv in ((3, 2, 1, 1), (2, 4, 1, 1), (1, 1, 1, 1), (1, 3, 1, 2), (2, 1, 2, 1), (1, 1, 2, 3)):
        S = surface(m, nu, nv, pu, pv)
        if S is None: return ctx.skip('grid', 'surface', 'surface fields not recognised')
        for o, ot in ((NONE, 'plain'), (some(options(m)) if options(m) is not None else None, 'adaptive')):
            if o is None: continue
            cases.append(('%dx%d spans degree %d,%d %s' % (nu, nv, pu, pv, ot), plain, {plain.arg_names.get(1): S, plain.arg_names.get(2): o}, (0.0, nu), (10.0, 10.0 + nv), nu, nv, pu, pv, [], []))
    S = surface(m, 2, 3)
    for kw in ({'v_parameters_at_u_min': [12.5, 10.0, 10.5, 13.0]}, {'u_parameters_at_v_max': [2.0, 1.25, 0.0]}, {'u_parameters_at_v_max': [2.0, 1.25, 0.0], 'u_parameters_at_v_min': [0.25, 0.0, 2.0, 1.25]}, {'v_parameters_at_u_min': [10.5, 12.5]}, {'u_parameters_at_v_min': [0.5]}, {'v_parameters_at_u_min': [10.0, 11.5, 13.0]}, {'v_parameters_at_u_max': [10.0, 10.25, 13.0]}, {'u_parameters_at_v_min': [0.0, 0.5, 2.0]}, {'u_parameters_at_v_max': [0.0, 1.25, 2.0]},
               {'v_parameters_at_u_min': [10.0, 11.5, 13.0], 'v_parameters_at_u_max': [10.0, 10.25, 11.5, 13.0], 'u_parameters_at_v_max': [0.0, 1.75, 2.0]}):
        c = constraints(m, **kw)
        if c is None: ctx.skip('grid', 'constraints', 'constraint fields not recognised'); break
        gu = sorted({x for k, v in kw.items() if k[0] == 'u' for x in v}); gv = sorted({x for k, v in kw.items() if k[0] == 'v' for x in v})
        cases.append(('constraints %s' % ' '.join('%s%s' % (k, '' if v == sorted(v) else ' out of order') for k, v in sorted(kw.items())), con, {con.arg_names.get(1): S, con.arg_names.get(2): c, con.arg_names.get(3): NONE}, (0.0, 2.0), (10.0, 13.0), 2, 3, 1, 1, gu, gv))
    for inst, f, args, bu, bv, nu, nv, pu, pv, gu, gv in cases:
        ns = nodes_of(ctx, f, args)
        if not ns: ctx.skip('grid', inst, 'cells not recognised'); continue
        cs = [[uv(x) for x in fld(n, 'corners').a[0]] if fld(n, 'corners').k == 'arr' else None for n in ns]
        if any(c is None or any(None in p for p in c) for c in cs): ctx.skip('grid', inst, 'corners not constant'); continue
        ids = [numeric(fld(n, 'id')) for n in ns]
        ctx.ob('grid', inst + ' numbers', ids == list(range(len(ns))), f.span, 'cells are numbered %s' % ids[:8])
        okk = all(len(c) == 4 and c[0][0] == c[3][0] < c[1][0] == c[2][0] and c[0][1] == c[1][1] < c[2][1] == c[3][1] for c in cs)
        if not ctx.ob('grid', inst + ' corners', okk, f.span, 'a cell has the corners %s' % next((c for c in cs if not (len(c) == 4 and c[0][0] == c[3][0] < c[1][0] == c[2][0] and c[0][1] == c[1][1] < c[2][1] == c[3][1])), None)): continue
        rnd = lambda p: tuple(round(x, 9) for x in p)
        a = sum((c[2][0] - c[0][0]) * (c[2][1] - c[0][1]) for c in cs)
        box = (min(c[0][0] for c in cs), max(c[2][0] for c in cs)), (min(c[0][1] for c in cs), max(c[2][1] for c in cs))
        full = (bu[1] - bu[0]) * (bv[1] - bv[0])
        tiles = len({rnd(c[0] + c[2]) for c in cs}) == len(cs)
        ctx.ob('grid', inst + ' domain', abs(a - full) < 1e-6 and tiles and all(abs(x - y) < 1e-6 for x, y in zip(box[0] + box[1], tuple(bu) + tuple(bv))), f.span, 'the cells cover %s of %s (area %g of %g)' % (box, (bu, bv), a, full))
        edge = {}
        for i, c in enumerate(cs):
            for k in range(4): edge[rnd(c[k]), rnd(c[(k + 1) % 4])] = i
        bad = None
        for i, (n, c) in enumerate(zip(ns, cs)):
            nb = fld(n, 'neighbors')
            for k in range(4):
                want = edge.get((rnd(c[(k + 1) % 4]), rnd(c[k])))
                got = opt(m, elem(nb, ci(k)))
                if got == '?': ctx.skip('neighbour', inst, 'neighbour not constant'); continue
                ctx.ob('neighbour', '%s %s' % (inst, SIDES[k]), got == want, f.span, 'cell %d with corners %s has neighbour %s on side %s instead of %s' % (i, c, got, SIDES[k], want))
        us, vs = sorted({p[0] for c in cs for p in c}), sorted({p[1] for c in cs for p in c})
        for lines, g, nm in ((us, gu, 'u'), (vs, gv, 'v')):
            if g: ctx.ob('grid lines', '%s %s' % (inst, nm), all(any(abs(x - y) < 1e-9 for y in lines) for x in g), f.span, '%s grid lines %s do not contain the constraint parameters %s' % (nm, lines, g))
        if pu == 1: ctx.ob('grid lines', inst + ' u knots', all(any(abs(bu[0] + i - y) < 1e-9 for y in us) for i in range(nu + 1)), f.span, 'the u lines %s of a surface that is linear in u miss one of its knots' % us)
        if pv == 1: ctx.ob('grid lines', inst + ' v knots', all(any(abs(bv[0] + i - y) < 1e-9 for y in vs) for i in range(nv + 1)), f.span, 'the v lines %s of a surface that is linear in v miss one of its knots' % vs)
        ctx.count('initial cells decided', len(ns))

SIDE_KW = {'u_min': 'v_parameters_at_u_min', 'u_max': 'v_parameters_at_u_max', 'v_min': 'u_parameters_at_v_min', 'v_max': 'u_parameters_at_v_max'}
def borders(ctx):
    m = ctx.m
    f = entry(ctx, 'constrained_tessellate')
    if not f: return
    S = surface(m, 2, 3)
    par = {'u_min': [10.0, 10.5, 13.0], 'u_max': [10.0, 12.5, 13.0], 'v_min': [0.0, 0.25, 2.0], 'v_max': [0.0, 1.75, 2.0]}
    fix = {'u_min': (0, 0.0), 'u_max': (0, 2.0), 'v_min': (1, 10.0), 'v_max': (1, 13.0)}
    pts = {s: {(fix[s][1], p) if fix[s][0] == 0 else (p, fix[s][1]) for p in par[s]} for s in par}
    for k in (1, 2, 4):
        for sides in itertools.combinations(sorted(par), k):
            c = constraints(m, **{SIDE_KW[s]: par[s] for s in sides})
            if c is None or S is None: return ctx.skip('border', 'constraints', 'fields not recognised')
            inst = 'constrained at ' + '+'.join(sides)
            M, why = mesh_of(ctx, f, {f.arg_names.get(1): S, f.arg_names.get(2): c, f.arg_names.get(3): NONE}, uvs_const=False)
            if M is None: ctx.skip('border', inst, why); continue
            n = 0
            for i, (p, u) in enumerate(zip(M.points, M.uvs)):
                uvc = tuple(numeric(elem(u, ci(j))) for j in (0, 1))
                if None not in uvc:
                    on = [s for s in sides if abs(uvc[fix[s][0]] - fix[s][1]) < 1e-9]
                    # a vertex left alone must not lie on a constrained side
                    ctx.ob('border', inst + ' left alone', not on, f.span, 'the vertex at uv %s lies on the constrained side %s but is not one of its constraint points' % (uvc, '/'.join(on)))
                    n += 1
                    continue
                b = find(u, lambda x: x.k == 'best')
                if len(b) != 1: ctx.skip('border', inst, 'replacement not recognised'); continue
                b = b.pop()
                lst = find(b.a[1], lambda x: x.k == 'arr' and x.a[0] and all(y.k == 'tup' for y in x.a[0]))
                if len(lst) != 1: ctx.skip('border', inst, 'candidates not recognised'); continue
                cand, orig, ds = set(), None, []
                for y in lst.pop().a[0]:
                    q = [z for z in y.a[0] if z.k == 'adt' and 'uv' in z.a[2]]
                    d = [z for z in y.a[0] if z not in q]
                    if len(q) != 1 or len(d) != 1: cand = None; break
                    cand.add(uv(q[0]))
                    e = eval_uv(d[0])
                    ds.append((uv(q[0]), e))
                if not cand or any(None in x for x in cand): ctx.skip('border', inst, 'candidates not constant'); continue
                others = [e - {q} for q, e in ds if len(e) == 2]
                orig = others[0] if others and all(x == others[0] for x in others) and len(others[0]) == 1 else None
                if orig is None: ctx.skip('border', inst, 'replaced vertex not recognised'); continue
                o = next(iter(orig))
                on = [s for s in sides if abs(o[fix[s][0]] - fix[s][1]) < 1e-9]
                okk = any(cand == pts[s] for s in on)
                ctx.ob('border', inst + ' replaced', okk, f.span, 'the vertex at uv %s is replaced by the closest of the points at uv %s' % (o, sorted(cand)))
                n += 1
            ctx.count('border vertices decided', n)

# ---------------------------------------------------------------- division of one cell
def cell(ctx, i):
    m = ctx.m
    def sp(k): return build(m, 'SurfacePoint', {'uv': arr([arg('u%d_%d' % (i, k)), arg('v%d_%d' % (i, k))]), 'point': arg('p%d_%d' % (i, k)), 'normal': arg('n%d_%d' % (i, k)), 'is_normal_degenerated': FALSE,
        'u_constraint': arg('uc%d_%d' % (i, k)), 'v_constraint': arg('vc%d_%d' % (i, k)), 'u_min': arg('umi%d_%d' % (i, k)), 'u_max': arg('uma%d_%d' % (i, k)), 'v_min': arg('vmi%d_%d' % (i, k)), 'v_max': arg('vma%d_%d' % (i, k))})
    c = [sp(k) for k in range(4)]
    if any(x is None for x in c): return None
    # a rectangle: left/right u, bottom/top v
    L, R, B, Tp = (arg('%s%d' % (z, i)) for z in ('left', 'right', 'bottom', 'top'))
    sub = {arg('u%d_%d' % (i, k)): (L, R, R, L)[k] for k in range(4)}
    sub.update({arg('v%d_%d' % (i, k)): (B, B, Tp, Tp)[k] for k in range(4)})
    return node(ctx, ci(i), arr([subst(x, sub) for x in c]), arr([arg('nb%d_%d' % (i, k)) for k in range(4)]))

def node(ctx, i, corners, nbs):
    """a cell as the constructor makes it"""
    fs = ctx.m.method('AdaptiveTessellationNode', 'new')
    if len(fs) != 1 or fs[0].nargs != 3: return None
    f = fs[0]
    outs = engine(ctx, inline=tess).auto(f, {f.arg_names.get(1): i, f.arg_names.get(2): corners, f.arg_names.get(3): nbs})
    return outs[0][1] if len(outs) == 1 and outs[0][1].k == 'adt' else None

def divide(ctx):
    m = ctx.m
    fs = m.method('AdaptiveTessellationProcessor', 'divide')
    if len(fs) != 1: return ctx.skip('children', 'divide', 'processor not recognised')
    f = fs[0]
    cells = [cell(ctx, i) for i in range(3)]
    dd = {v: unit_adt(m, 'DividableDirection', v) for v in ('Both', 'U', 'V')}
    if any(c is None for c in cells) or unit_adt(m, 'UVDirection', 'U') is None: return ctx.skip('children', 'cell', 'cell fields changed')
    P = build(m, 'AdaptiveTessellationProcessor', {'surface': arg('S'), 'nodes': arr(cells)})
    if P is None: return ctx.skip('children', 'processor', 'fields changed')
    names = [f.arg_names.get(i + 1) for i in range(f.nargs)]
    rec = [g for g in m.fns.values() if g.name == 'iterate' and g.self_adt() == f.self_adt()]
    for which in ('Both', 'U', 'V', None):
        I = engine(ctx, inline=tess, opaque=stop); I.unroll = 30
        calls, asked = [], []
        def over(I, st, name, info, a):
            if info['name'] == 'should_divide':
                v = [I.value(st, x) for x in a]
                asked.append(v)
                return [(st, some(dd[which]) if which else NONE)]
            if info['name'] == 'iterate' and 'AdaptiveTessellation' in name:
                v = [I.value(st, x) for x in a]
                if any(numeric(x) == 1 and x is not v[0] and j == 3 for j, x in enumerate(v)) or len([x for x in v if numeric(x) is not None]) == 2 and numeric(v[1]) is not None and numeric(v[1]) >= 3:
                    calls.append((st.f, v)); return [(st, UNIT)]
        I.override = over
        try: outs = I.auto(f, {names[0]: P, names[1]: ci(1), names[2]: arg('OPT')})
        except Budget: ctx.skip('children', str(which), 'budget'); continue
        for s, r in outs:
            inst = 'divide %s when %s' % (which, showf(s.f, 3) or 'always')
            fin = next((v for k, v in s.s.items() if k[0] == 'r' and k[1] == 0), None)
            ns = fld(fin, 'nodes') if fin is not None else None
            if ns is None or ns.k != 'arr': ctx.skip('children', inst, 'cells not explicit'); continue
            ns = list(ns.a[0])
            if which is None:
                ctx.ob('children', inst, ns == cells, f.span, 'a cell that needs no division is changed')
                continue
            if not ctx.ob('children', inst + ' count', len(ns) == 5 and ns[0] is cells[0] and ns[2] is cells[2], f.span, 'dividing cell 1 of 3 leaves %d cells' % len(ns)): continue
            par, ch = ns[1], ns[3:]
            kids = fld(par, 'children')
            kids = [numeric(x) for x in kids.a[3][0].a[0]] if is_adt(kids, OPT, 'Some') and kids.a[3][0].k == 'arr' else None
            if not ctx.ob('children', inst + ' numbers', kids is not None and sorted(kids) == [3, 4] and [numeric(fld(x, 'id')) for x in ch] == [3, 4], f.span, 'children recorded as %s, numbered %s' % (kids, [show(fld(x, 'id')) for x in ch])): continue
            split(ctx, f, inst, which, cells[1], par, {3: ch[0], 4: ch[1]})
            edges(ctx, f, inst, par, ns, {3: ch[0], 4: ch[1]})
            my = [v for fs_, v in calls if not contradictory(fs_ | s.f)]
            if rec:
                got = sorted({int(numeric(v[1])) for v in my if numeric(v[1]) is not None})
                if got: ctx.ob('recursion', inst + ' both', got == [3, 4], f.span, 'children examined further: %s' % got)
                else: ctx.skip('recursion', inst, 'recursion not recognised')
                if got:
                    dep = {numeric(v[3]) for v in my if len(v) > 3}
                    if dep and None not in dep: ctx.ob('recursion', inst + ' depth', dep == {1}, f.span, 'children of a cell at depth 0 are examined at depth %s' % dep)
            dirs = {x for v in my for x in v[1:] if x.k == 'adt' and x.a[0].endswith('UVDirection')}
            if len(dirs) == 1 and which == 'Both':
                own = fld(par, 'direction')
                if own.k == 'adt': ctx.ob('recursion', inst + ' direction', own.a[1] != next(iter(dirs)).a[1], f.span, 'a cell divided in direction %s has its children divided in %s next' % (own.a[1], next(iter(dirs)).a[1]))
        ctx.count('divisions decided')

def box(c):
    cs_ = fld(c, 'corners')
    return [(elem(fld(elem(cs_, ci(i)), 'uv'), ci(0)), elem(fld(elem(cs_, ci(i)), 'uv'), ci(1))) for i in range(4)]
import poly
def eq(a, b): return a is b or poly.same(a, b)

def split(ctx, f, inst, which, cell0, par, ch):
    """geometry of the two children"""
    m = ctx.m
    L, B = box(cell0)[0]; R, Tp = box(cell0)[2]
    mu, mv = op('Mul', op('Add', L, R), cf(0.5)), op('Mul', op('Add', B, Tp), cf(0.5))
    pos = lambda p: (next((n for n, x in (('L', L), ('R', R), ('M', mu)) if eq(p[0], x)), '?'), next((n for n, x in (('B', B), ('T', Tp), ('M', mv)) if eq(p[1], x)), '?'))
    shapes = {i: [pos(p) for p in box(c)] for i, c in ch.items()}
    want_u = {'bottom': [('L', 'B'), ('R', 'B'), ('R', 'M'), ('L', 'M')], 'top': [('L', 'M'), ('R', 'M'), ('R', 'T'), ('L', 'T')]}
    want_v = {'left': [('L', 'B'), ('M', 'B'), ('M', 'T'), ('L', 'T')], 'right': [('M', 'B'), ('R', 'B'), ('R', 'T'), ('M', 'T')]}
    name = {}
    for i, s in shapes.items():
        for n, w in list(want_u.items()) + list(want_v.items()):
            if s == w: name[i] = n
    okk = sorted(name.values()) in (['bottom', 'top'], ['left', 'right'])
    if not ctx.ob('children', inst + ' tile', okk, f.span, 'the children have the corners %s (L/R/M: left, right, middle; B/T/M)' % shapes): return
    if which != 'Both': ctx.ob('children', inst + ' direction', ('bottom' in name.values()) == (which == 'U'), f.span, 'a cell to be divided in direction %s is split into %s' % (which, sorted(name.values())))
    # inherited corners are the parent's own surface points; mid points are evaluated where they are and shared
    pc = {pos(p): elem(fld(cell0, 'corners'), ci(i)) for i, p in enumerate(box(cell0))}
    mids = {}
    for i, c in ch.items():
        for k in range(4):
            sp = elem(fld(c, 'corners'), ci(k))
            w = shapes[i][k]
            if w in pc: ctx.ob('children', inst + ' corner', sp is pc[w], f.span, 'child %s does not keep the parent\'s corner %s' % (name[i], w))
            else:
                mids.setdefault(w, set()).add(sp)
                e = {tuple(x.a[1][1:3]) for x in find(fld(sp, 'point'), lambda x: x.k == 'call' and x.a[0].split('::')[-1] == 'rational_derivatives' and len(x.a[1]) >= 3)}
                if len(e) == 1:
                    e = next(iter(e)); p = box(c)[k]
                    ctx.ob('children', inst + ' mid point', eq(e[0], p[0]) and eq(e[1], p[1]), f.span, 'the mid point at (%s, %s) is evaluated at (%s, %s)' % (show(p[0], 4), show(p[1], 4), show(e[0], 4), show(e[1], 4)))
                else: ctx.skip('children', inst + ' mid point', 'evaluation not recognised')
    ctx.ob('children', inst + ' shared', len(mids) == 2 and all(len(x) == 1 for x in mids.values()), f.span, 'the children do not share their two mid points: %s' % sorted(mids))
    inv = {v: k for k, v in name.items()}
    opp = {'bottom': (2, 'top'), 'top': (0, 'bottom'), 'left': (1, 'right'), 'right': (3, 'left')}
    for i, c in ch.items():
        side, sib = opp[name[i]]
        for k in range(4):
            nb = elem(fld(c, 'neighbors'), ci(k))
            if k == side: ctx.ob('child neighbours', '%s %s' % (inst, name[i]), opt(m, nb) == inv[sib], f.span, 'the %s child has %s as its %s neighbour instead of the %s child' % (name[i], show(nb, 3), SIDES[k], sib))
            else: ctx.ob('child neighbours', '%s %s %s' % (inst, name[i], SIDES[k]), nb is elem(fld(cell0, 'neighbors'), ci(k)), f.span, 'the %s child has %s as its %s neighbour instead of the parent\'s' % (name[i], show(nb, 3), SIDES[k]))

def edges(ctx, f, inst, par, ns, ch):
    """vertex list of each edge of the divided cell, with the children's lists as symbols"""
    m = ctx.m
    g = m.method('AdaptiveTessellationNode', 'get_edge_corners')
    if len(g) != 1: return ctx.skip('edge list', inst, 'edge lists not recognised')
    g = g[0]
    names = [g.arg_names.get(i + 1) for i in range(g.nargs)]
    pb = box(par)
    corners = lambda c: [(x, y) for x, y in box(c)]
    for k in range(4):
        I = engine(ctx, inline=tess, opaque=stop); I.unroll = 30
        def over(I, st, name, info, a):
            if info['name'] == 'get_edge_corners':
                v = [I.value(st, x) for x in a]
                i, e = numeric(fld(v[0], 'id')) if v[0].k == 'adt' else None, numeric(v[-1])
                if i in ch and e is not None: return [(st, arr([arg('E%d_%d' % (i, e))]))]
        I.override = over
        try: outs = I.auto(g, {names[0]: par, names[1]: arr(ns), names[2]: ci(k)})
        except Budget: ctx.skip('edge list', inst, 'budget'); continue
        a, b = pb[k], pb[(k + 1) % 4]
        # children with an edge k on the parent's edge k, in outline order
        def on(p): return eq(p[0], a[0]) and eq(p[0], b[0]) or eq(p[1], a[1]) and eq(p[1], b[1])
        kids = [(i, box(c)) for i, c in ch.items() if on(box(c)[k]) and on(box(c)[(k + 1) % 4]) and not (eq(box(c)[k][0], box(c)[(k + 1) % 4][0]) and eq(box(c)[k][1], box(c)[(k + 1) % 4][1]))]
        first = [i for i, c in kids if all(eq(x, y) for x, y in zip(c[k], a))]
        order = first + [i for i, c in kids if i not in first]
        want = [arg('E%d_%d' % (i, k)) for i in order]
        for s, r in outs:
            if r.k != 'arr': ctx.skip('edge list', inst, 'list not explicit: %s' % show(r, 3)[:60]); continue
            ctx.ob('edge list', '%s %s edge' % (inst, SIDES[k]), list(r.a[0]) == want, g.span, 'the %s edge of a cell divided in direction %s lists %s instead of %s' % (SIDES[k], show(fld(par, 'direction')), show(r, 3), [show(x) for x in want]))

def adjacent(ctx):
    m = ctx.m
    gs = m.method('AdaptiveTessellationNode', 'get_all_corners')
    es = m.method('AdaptiveTessellationNode', 'get_edge_corners')
    if len(gs) != 1 or len(es) != 1: return ctx.skip('adjacent', 'get_all_corners', 'edge lists not recognised')
    g, e = gs[0], es[0]
    names = [g.arg_names.get(i + 1) for i in range(g.nargs)]
    en = [e.arg_names.get(i + 1) for i in range(e.nargs)]
    c0 = cell(ctx, 0)
    if c0 is None: return ctx.skip('adjacent', 'cell', 'cell fields changed')
    # a leaf's own edge list
    for k in range(4):
        I = engine(ctx, inline=tess, opaque=stop); I.unroll = 30
        for s, r in I.auto(e, {en[0]: c0, en[1]: arr([c0]), en[2]: ci(k)}):
            if r.k == 'arr': ctx.ob('edge list', 'leaf %s edge' % SIDES[k], list(r.a[0]) == [elem(fld(c0, 'corners'), ci(k))], e.span, 'the %s edge of a leaf lists %s' % (SIDES[k], show(r, 3)))
            else: ctx.skip('edge list', 'leaf', show(r, 3))
    # the neighbour's vertices at constant positions along the edge
    for k in range(4):
        for pat in ((), (1.0,), (0.5,), (0.5, 0.25), (1.5, 1.0, 0.5, 0.0), (1.0, 0.75, 0.5, 0.0, -1.0), (0.75, 0.5, 0.25, 0.125)):
            # unit cell [0,1]x[0,1]; the neighbour's list runs against the edge of this cell, from the end of it towards (and not including) its start
            t = [x if k in (0, 1) else 1.0 - x for x in pat]
            def at(x): return {0: (x, 0.0), 1: (1.0, x), 2: (x, 1.0), 3: (0.0, x)}[k]
            unit = ((0.0, 0.0), (1.0, 0.0), (1.0, 1.0), (0.0, 1.0))
            def sp(n, p): return build(m, 'SurfacePoint', {'uv': arr([cf(p[0]), cf(p[1])]), 'point': arg(n), 'normal': arg('n' + n), 'is_normal_degenerated': FALSE, 'u_constraint': FALSE, 'v_constraint': FALSE, 'u_min': FALSE, 'u_max': FALSE, 'v_min': FALSE, 'v_max': FALSE})
            me = node(ctx, ci(0), arr([sp('c%d' % i, p) for i, p in enumerate(unit)]), arr([some(ci(i + 1)) for i in range(4)]))
            others = [cell(ctx, i + 1) for i in range(4)]
            if me is None or any(o is None for o in others): return ctx.skip('adjacent', 'cell', 'cell fields changed')
            X = [sp('x%d' % i, at(y)) for i, y in enumerate(t)]
            asked = []
            I = engine(ctx, inline=tess, opaque=stop); I.unroll = 30
            def over(I, st, name, info, a):
                if info['name'] in ('default_epsilon', 'epsilon') and not a: return [(st, cf(EPS))]
                if info['name'] == 'get_edge_corners':
                    v = [I.value(st, x) for x in a]
                    i, ed = numeric(fld(v[0], 'id')) if v[0].k == 'adt' else None, numeric(v[-1])
                    if i is None or ed is None: return None
                    asked.append((int(i), int(ed)))
                    return [(st, arr(X))]
            I.override = over
            try: outs = I.auto(g, {names[0]: me, names[1]: arr([me] + others), names[2]: ci(k)})
            except Budget: continue
            inst = '%s edge' % SIDES[k]
            if not asked: ctx.skip('adjacent', inst, 'neighbour not asked'); continue
            ctx.ob('adjacent', inst + ' asks', set(asked) == {(k + 1, (k + 2) % 4)}, g.span, 'the %s edge asks cell %s for its %s edge' % (SIDES[k], '/'.join(SIDES[i - 1] if i else 'itself' for i, _ in asked), '/'.join(SIDES[x] for _, x in asked)))
            for s, r in outs:
                if r.k != 'arr': ctx.skip('adjacent', inst, 'list not explicit: %s' % show(r, 3)[:80]); continue
                inner = [x for x, y in zip(X, t) if EPS < y < 1.0 - EPS]
                want = [elem(fld(me, 'corners'), ci(k))] + inner[::-1]
                ctx.ob('adjacent', inst + ' list', list(r.a[0]) == want, g.span, 'own corner then %s expected, got %s' % ([show(fld(x, 'point')) for x in want], [show(fld(x, 'point')) for x in r.a[0]]))
        # no neighbour
        me2 = subst_field(me, 'neighbors', arr([NONE] * 4))
        I = engine(ctx, inline=tess, opaque=stop); I.unroll = 30
        for s, r in I.auto(g, {names[0]: me2, names[1]: arr([me2]), names[2]: ci(k)}):
            if r.k == 'arr': ctx.ob('adjacent', '%s edge at the border' % SIDES[k], list(r.a[0]) == [elem(fld(me2, 'corners'), ci(k))], g.span, 'without a neighbour the edge lists %s' % show(r, 3))

def subst_field(t, name, v):
    return adt(t.a[0], t.a[1], t.a[2], [v if n == name else x for n, x in zip(t.a[2], t.a[3])])
