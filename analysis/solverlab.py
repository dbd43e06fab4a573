"""What an intersection search hands to the bounding box trees, to the solver and to the executor: one interpretation of find_intersections with the
traversal, the solver framework and the operands' own queries replaced by terms that remember what they were given."""
from curvelab import *
from signs import *

OPTS = 'CurveIntersectionSolverOptions'
def impls(ctx, nm, ty): return [f for f in ctx.m.fns.values() if f.name == nm and f.kind != 'Closure' and (f.self_adt() or '').split('::')[-1] == ty]
VALUES = {'minimum_distance': 1e-2, 'knot_domain_division': 8, 'step_size_tolerance': 3e-3, 'cost_tolerance': 5e-4, 'max_iters': 37}
def options(m, **kw):
    a = find_adt(m, OPTS)
    if a is None: return None
    names = [q['n'] for q in a['v'][0]['f']]
    vals = dict(VALUES, **kw)
    if set(names) != set(VALUES): return None
    return adt(a['path'], a['v'][0]['n'], names, [ci(vals[n]) if n in ('knot_domain_division', 'max_iters') else cf(vals[n]) for n in names])
def best_chain(t, nm):
    """the argument of the outermost call `nm` of a chain of builder calls"""
    for _ in range(40):
        if t.k != 'call': return None
        if t.a[0].split('::')[-1] == nm: return t.a[1][-1]
        if not t.a[1]: return None
        t = t.a[1][0]
def probe(ctx, f, doms, opt, surf=False, pairs=2, t=20):
    """interprets find_intersections (or a function of the same signature); returns a dict of what it handed on, or None"""
    A, B = arg('FIRST'), arg('SECOND')
    log = {'tol': [], 'exec': [], 'traverse': 0, 'names': []}
    D = {A: doms[0], B: doms[-1]}
    def interval(d): return cf(d[1] - d[0])
    def ov(I, st, name, info, a):
        nm = info['name']
        e = eps_over(nm, a)
        if e is not None: return [(st, e)]
        v = [I.value(st, x) for x in a]
        if v and v[0] in D:
            two = surf and v[0] is A
            if nm == 'knots_domain': return [(st, arr([arr([cf(x) for x in d]) for d in doms[:2]]) if two else arr([cf(x) for x in D[v[0]]]))]
            if nm == 'knots_domain_interval': return [(st, arr([interval(d) for d in doms[:2]]) if two else interval(D[v[0]]))]
            if nm in ('u_knots_domain', 'v_knots_domain') and two: return [(st, arr([cf(x) for x in doms[nm[0] == 'v']]))]
            if nm in ('u_knots_domain_interval', 'v_knots_domain_interval') and two: return [(st, interval(doms[nm[0] == 'v']))]
        if nm == 'new' and 'BoundingBoxTree' in name and 'Traversal' not in name:
            if v[0] in D: log['tol'].append((v[0], v[1:]))
            return [(st, mk('call', 'tree', (v[0],)))]
        if nm == 'try_traverse' and len(v) == 2:
            log['traverse'] += 1
            return [(st, ok(mk('call', 'traversal', ())))]
        if nm in ('into_pairs_iter', 'pairs_iter', 'into_pairs', 'pairs'):
            return [(st, arr([arr([mk('call', 'cellA', (ci(k),)), mk('call', 'cellB', (ci(k),))]) for k in range(pairs)]))]
        if nm in ('curve_owned', 'surface_owned', 'curve', 'surface') and v and v[0].k == 'call' and v[0].a[0] in ('cellA', 'cellB'): return [(st, mk('call', 'piece' + v[0].a[0][-1], v[0].a[1]))]
        if nm == 'knots_domain' and v and v[0].k == 'call' and v[0].a[0] in ('pieceA', 'pieceB'):
            d = arr([arg('lo'), arg('hi')])
            return [(st, arr([d, d]) if surf and v[0].a[0] == 'pieceA' else d)]
        if nm == 'new' and 'Executor' in name: return [(st, mk('call', 'exec', (v[0], v[1], mk('call', 'iterstate', ()))))]
        if nm in ('param', 'max_iters', 'inv_hessian', 'hessian', 'gradient', 'cost', 'target_cost') and v and find(v[0], lambda x: x.k == 'call' and x.a[0] == 'iterstate'):
            return [(st, mk('call', nm, tuple(v)))]
        if nm == 'configure' and v and v[0].k == 'call' and v[0].a[0] == 'exec':
            s2 = I.apply1(st, a[1], [v[0].a[1][2]], ('cfg', len(log['exec'])))
            return [(st, mk('call', 'exec', v[0].a[1][:2] + (I.value(st, s2),)))]
        if nm == 'run' and v and v[0].k == 'call' and v[0].a[0] == 'exec':
            log['exec'].append(v[0].a[1])
            return [(st, adt(RES, 'Err', ('0',), (arg('E'),)))]
        return None
    def inl(g): return True if g.span.startswith('src/intersects') and g.name not in ('gradient', 'cost', 'init', 'next_iter', 'terminate') else None
    def opq(g): return True if g.name in ('point_at', 'knots_domain', 'knots_domain_interval', 'try_traverse', 'into_pairs_iter', 'u_knots_domain', 'v_knots_domain', 'u_knots_domain_interval', 'v_knots_domain_interval') else None
    I = engine(ctx, inline=inl, opaque=opq)
    I.unroll, I.budget, I.t_end, I.exact, I.cap = 40, 200000, time.time() + t, True, 400
    I.override = ov
    with deciding(Case()):
        try: outs = [(s.f, I.value(s, r)) for s, r in I.auto(f, {f.arg_names.get(1): A, f.arg_names.get(2): B, f.arg_names.get(3): opt})]
        except Budget: return None
    log['outs'] = outs
    log['A'], log['B'] = A, B
    return log
