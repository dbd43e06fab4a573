"""C15 closest parameters stay inside the domain: the step of the Newton solvers started by the searches, decided as a table over
(below, inside, above) x (closed, open) with order reasoning on the extracted formulas."""
from vf import *
import bounds, poly

SEARCH = (('NurbsCurve', 1), ('NurbsSurface', 2))

def relabel(t, dims):
    """caller's knot domain and closedness replaced by plain symbols"""
    m = {}
    dom = [tup(arg('lo%d' % i), arg('hi%d' % i)) for i in range(dims)]
    for x in find(t, lambda x: x.k == 'call' and len(x.a[1]) == 1 and x.a[1][0] is arg('self')):
        n = x.a[0].split('::')[-1]
        if n == 'knots_domain': m[x] = dom[0] if dims == 1 else tup(*dom)
        elif n == 'u_knots_domain': m[x] = dom[0]
        elif n == 'v_knots_domain': m[x] = dom[1]
        elif n == 'is_closed': m[x] = arg('closed0')
    return subst(t, m) if m else t

def varies(i):
    return i.k == 'rng' or i.k == 'lin' and any(varies(x) for x, _ in i.a[0])
def closed_dir(t):
    """direction of an all(first == last) test over control point rows or columns"""
    ixs = find(t, lambda x: x.k == 'rng')
    out = set()
    for e in find(t, lambda x: x.k == 'elem' and x.a[0].k == 'elem'):
        o, i = e.a[0].a[1], e.a[1]
        vo, vi = varies(o), varies(i)
        if vi and not vo: out.add(0)
        elif vo and not vi: out.add(1)
        else: out.add(None)
    return out.pop() if len(out) == 1 else None

def solver_of(ctx, f, dims):
    """the solver value handed to the executor, in terms of lo/hi/closed symbols"""
    I, outs = auto(ctx, f)
    if outs is None: return None, None
    sol = set()
    for fs, r, _ in outs:
        for x in find(r, lambda x: x.k == 'call' and x.a[0].split('::')[-1] == 'new' and len(x.a[1]) == 2 and x.a[1][1].k == 'adt' and x.a[1][1].a[0].startswith('closest_parameter')): sol.add(x.a[1][1])
    if len(sol) != 1: return None, outs
    s = relabel(sol.pop(), dims)
    bm = {}
    for b in find(s, lambda x: x.k in ('call', 'op') and x.a[0] in ('all', 'forall') or x.k == 'all'):
        d = closed_dir(b)
        if d is not None: bm[b] = arg('closed%d' % d)
    return (subst(s, bm) if bm else s), outs

def core(x, lo, hi):
    while x.k == 'op' and x.a[0] in ('max', 'min') and (lo in x.a[1] or hi in x.a[1]):
        r = [y for y in x.a[1] if y is not lo and y is not hi]
        if len(r) != 1: break
        x = r[0]
    return x

def known(x, p, lo, hi):
    """built from the raw step, the domain ends and a margin only"""
    eps = lambda y: y.k == 'call' and y.a[0].split('::')[-1] in ('default_epsilon', 'epsilon') and not y.a[1]
    if x in (p, lo, hi) or x.k == 'c' or eps(x): return True
    if x.k == 'op' and x.a[0] in ('max', 'min'): return all(known(y, p, lo, hi) for y in x.a[1])
    N = bounds.Lin()
    for k in (0, 1, -1, 2, -2):
        d = poly.padd(N.rat(x)[0], {m: v * k for m, v in N.rat(p)[0].items()}, -1) if k else N.rat(x)[0]
        if all(len(m) <= 1 and (not m or N.atoms[m[0][0]] in (lo, hi) or eps(N.atoms[m[0][0]])) for m in d): return True
    return False

def check(ctx):
    m = ctx.m
    ctx.rule('domain', 'the search hands the solver its own knot domain and its own closedness, per direction')
    ctx.rule('range', 'on every path of a solver step the new parameter is the previous one or provably between the start and the end of the domain')
    ctx.rule('wrap', 'closed: a step below the start continues the same distance below the end, a step past the end the same distance past the start; open: the nearer end; inside: the step itself')
    ctx.rule('result', 'the parameter returned is the best one of that solver run and is finite')
    ctx.rule('seed', 'the search starts from a sampled parameter of the same object')
    ctx.assumptions.append('the solver framework returns one of the parameters the step produced or the start value; epsilon is smaller than the domain')
    for ty, dims in SEARCH:
        f = ctx.one(m.method(ty, 'find_closest_parameter'), '%s::find_closest_parameter' % ty)
        sol, outs = solver_of(ctx, f, dims)
        if sol is None: ctx.skip('domain', ty, 'solver value not recognised'); continue
        result(ctx, f, ty, dims, outs)
        step(ctx, f, ty, dims, sol)
    seg(ctx)

def result(ctx, f, ty, dims, outs):
    for fs, r, _ in outs:
        for g, t in alts(r, fs):
            if not is_adt(t, RES, 'Ok'): continue
            v = t.a[3][0]
            comps = v.a[0] if v.k == 'tup' else (v,)
            for i, c in enumerate(comps):
                run = find(c, lambda x: x.k == 'call' and x.a[0].split('::')[-1] == 'run')
                best = find(c, lambda x: x.k == 'call' and x.a[0].split('::')[-1] in ('get_best_param', 'take_best_param'))
                if clean(c) and c.k in ('arg', 'c', 'f') : ctx.ob('result', '%s[%d]' % (ty, i), False, f.span, 'returns %s instead of the solution of the search' % show(c)); continue
                if not run or not best: ctx.skip('result', '%s[%d]' % (ty, i), 'origin not recognised'); continue
                fin = any(p and x.k == 'call' and x.a[0].split('::')[-1] == 'is_finite' and x.a[1][0] is c for x, p in g)
                neg = any(find(x, lambda y: y.k == 'call' and y.a[0].split('::')[-1] in ('is_finite', 'is_nan', 'is_infinite', 'is_normal')) for x, p in g)
                if fin: ctx.ob('result', '%s[%d] finite' % (ty, i))
                elif neg and any(x.k == 'call' and not p and x.a[0].split('::')[-1] == 'is_finite' and x.a[1][0] is c for x, p in g) or not neg: ctx.ob('result', '%s[%d] finite' % (ty, i), False, f.span, 'a parameter that is not finite can be returned')
                else: ctx.skip('result', '%s[%d] finite' % (ty, i), 'guard not recognised')
                if len(comps) == 2 and c.k == 'elem' and isint(c.a[1]): ctx.ob('result', '%s[%d] component' % (ty, i), numeric(c.a[1]) == i, f.span, 'component %d of the result is coordinate %s of the solution' % (i, show(c.a[1])))

def step(ctx, f, ty, dims, sol):
    m = ctx.m
    impl = [g for g in m.fns.values() if g.name == 'next_iter' and g.self_adt() == sol.a[0]]
    if len(impl) != 1: ctx.anchor_missing('solver step of ' + ty); return
    g = impl[0]
    # every domain end and closed flag must be present, in its own direction
    syms = {x.a[0] for x in roots(sol)}
    want = {'lo%d' % i for i in range(dims)} | {'hi%d' % i for i in range(dims)}
    left = [x for x in find(sol, lambda x: x.k == 'call' and x.a[1] and any(find(y, lambda z: z is arg('self')) for y in x.a[1]))]
    if not want <= syms and clean(sol) and not left:
        ctx.ob('domain', ty, False, f.span, 'the solver is not given the knot domain of every direction: %s' % show(sol, 6)); return
    if not want <= syms: ctx.skip('domain', ty, 'domain not recognised in %s' % show(sol)); return
    for cl in itertools_product(dims):
        s2 = subst(sol, {arg('closed%d' % i): (TRUE if c else FALSE) for i, c in enumerate(cl)})
        I, outs = auto(ctx, g, {'self': s2})
        inst = '%s %s' % (ty, '/'.join('closed' if c else 'open' for c in cl))
        if outs is None: ctx.skip('range', inst, 'budget'); continue
        n = 0
        for fs, r, _ in outs:
            for f1, t in alts(r, fs):
                if not is_adt(t, RES, 'Ok'): continue
                st = t.a[3][0]
                if st.k == 'tup': st = st.a[0][0]
                ps = find(st, lambda x: x.k == 'call' and x.a[0].split('::')[-1] == 'param' and len(x.a[1]) == 2)
                if len(ps) != 1: ctx.skip('range', inst, 'new state not recognised'); continue
                v = ps[0].a[1][1]
                for i in range(dims):
                    n += one(ctx, g, inst, i, cl[i], v if dims == 1 else None, v, f1, ty)
        ctx.count('parameter alternatives decided', n)
        cases(ctx, g, inst, s2, cl, dims, outs)
    ctx.ob('domain', ty)

def newparam(t):
    st = t.a[3][0]
    if st.k == 'tup': st = st.a[0][0]
    ps = find(st, lambda x: x.k == 'call' and x.a[0].split('::')[-1] == 'param' and len(x.a[1]) == 2)
    return ps[0].a[1][1] if len(ps) == 1 else None

def cases(ctx, g, inst, s2, cl, dims, outs):
    """below / inside / above decided separately for every raw step the code compares with the domain"""
    steps = {}
    for fs, r, _ in outs:
        for f1, t in deep_alts(r, fs, 400):
            if not is_adt(t, RES, 'Ok'): continue
            for c, _ in f1:
                if c.k == 'op' and c.a[0] in ('Lt', 'Le'):
                    for i in range(dims):
                        lo, hi = arg('lo%d' % i), arg('hi%d' % i)
                        for a, b in (c.a[1], c.a[1][::-1]):
                            if b in (lo, hi) and a not in (lo, hi) and clean(a): steps.setdefault((i, a), f1)
    for (i, p), f1 in sorted(steps.items(), key=lambda x: (x[0][0], x[0][1].n)):
        lo, hi = arg('lo%d' % i), arg('hi%d' % i)
        base = [(c, q) for c, q in f1 if not find(c, lambda y: y.k == 'arg' and re.match(r'(lo|hi)\d$', y.a[0])) and not find(c, lambda y: y.k == 'call' and y.a[0].split('::')[-1] == 'cost')]
        for nm, fc in (('below', [(op('Lt', p, lo), True), (op('Lt', hi, p), False)]), ('inside', [(op('Lt', p, lo), False), (op('Lt', hi, p), False)]), ('above', [(op('Lt', p, lo), False), (op('Lt', hi, p), True)])):
            f2 = frozenset(base + fc)
            I, o2 = auto(ctx, g, {'self': s2}, f2)
            if o2 is None: continue
            for fs, r, _ in o2:
                for f3, t in deep_alts(r, fs, 400):
                    if contradictory(f3 | f2) or not is_adt(t, RES, 'Ok'): continue
                    v = newparam(t)
                    if v is None or not find(v, lambda y: y.k == 'call' and y.a[0].split('::')[-1] == 'gradient') and not find(v, lambda y: y in (lo, hi)): continue
                    x = simplify(v if dims == 1 else elem(v, ci(i)), f3 | f2)
                    if not clean(x) or not known(x, p, lo, hi): continue
                    key = '%s direction %d %s' % (inst, i, nm)
                    c, N = core(x, lo, hi), bounds.Lin()
                    sh = show(subst(x, {p: arg('p')}), 6)
                    eps = find(x, lambda y: y.k == 'call' and y.a[0].split('::')[-1] in ('default_epsilon', 'epsilon'))
                    if nm == 'inside': ctx.ob('wrap', key, c is p, g.span, 'a step inside the domain is changed to %s' % sh)
                    elif cl[i]:
                        w = op('Add', op('Sub', p, lo), hi) if nm == 'below' else op('Add', op('Sub', p, hi), lo)
                        ctx.ob('wrap', key, N.equal(c, w), g.span, 'a step to %s on a closed direction continues at %s' % ('p < start' if nm == 'below' else 'p > end', sh))
                    else:
                        e = lo if nm == 'below' else hi
                        okv = op('min' if nm == 'above' else 'max', p, e) is x or op('max', op('min', p, hi), lo) is x or op('min', op('max', p, lo), hi) is x
                        d = N.sub(x, e)[0]
                        ctx.ob('wrap', key, okv or not d or all(len(k) == 1 and N.atoms[k[0][0]] in eps for k in d), g.span, 'a step %s an open direction ends at %s' % ('before the start of' if nm == 'below' else 'past the end of', sh))

def itertools_product(d):
    import itertools
    return list(itertools.product((True, False), repeat=d))

def one(ctx, g, inst, i, closed, scalar, v, facts, ty):
    lo, hi = arg('lo%d' % i), arg('hi%d' % i)
    n = 0
    for fs, whole in [(facts, v)] if scalar is not None else alts(v, facts):
        x0 = scalar if scalar is not None else elem(whole, ci(i))
        if find(whole, lambda y: y.k == 'call' and y.a[0].split('::')[-1] in ('get_param', 'take_param')) and not find(whole, lambda y: y.k == 'call' and y.a[0].split('::')[-1] == 'gradient'):
            ctx.ob('range', inst + ' keeps the previous parameter'); n += 1; continue
        for f2, x in deep_alts(x0, fs, 400):
            key = '%s direction %d' % (inst, i)
            cand = set()
            for c, p in f2:
                if c.k == 'op' and c.a[0] in ('Lt', 'Le'):
                    a, b = c.a[1]
                    if b in (lo, hi) and a not in (lo, hi): cand.add(a)
                    if a in (lo, hi) and b not in (lo, hi): cand.add(b)
            other = [y for y in find(x, lambda y: y.k == 'arg' and re.match(r'(lo|hi)\d', y.a[0])) if y not in (lo, hi)]
            cand = {c for c in cand if clean(c) or len(cand) == 1}
            p = cand.pop() if len(cand) == 1 else None
            if not clean(x): ctx.skip('range', key, 'value not clean'); continue
            if other and not (bounds.geq(x, lo, f2, ((hi, lo),)) and bounds.geq(hi, x, f2, ((hi, lo),))):
                ctx.ob('range', key + ' own domain', False, g.span, 'the parameter of direction %d is kept in the domain of the other direction: %s' % (i, show(x, 5))); continue
            ex = ((hi, lo),)
            eps = [y for y in find(x, lambda y: y.k == 'call' and y.a[0].split('::')[-1] in ('default_epsilon', 'epsilon'))]
            e2 = ex + tuple((e, ci(0)) for e in eps) + tuple((op('Sub', hi, lo), e) for e in eps)
            if bounds.geq(x, lo, f2, e2) and bounds.geq(hi, x, f2, e2): ctx.ob('range', key); n += 1
            elif p is not None and known(x, p, lo, hi) or p is None and find(x, lambda y: y.k == 'call' and y.a[0].split('::')[-1] == 'gradient') and not find(x, lambda y: y in (lo, hi)) and not find(x, lambda y: y.k == 'op' and y.a[0] in ('Rem', 'min', 'max') or y.k == 'call' and y.a[0].split('::')[-1] in ('rem_euclid', 'floor', 'fract', 'clamp')):
                ctx.ob('range', key, False, g.span, 'the new parameter %s is not confined to the domain when %s' % (show(x, 5), showf(frozenset((c, q) for c, q in f2 if lo in children_deep(c) or hi in children_deep(c)), 4)))
                n += 1; continue
            else: ctx.skip('range', key, 'shape of the new parameter: %s' % show(x, 4)); continue
    return n
def children_deep(t): return set(find(t, lambda y: y.k == 'arg'))

def seg(ctx):
    """start value of the curve search: projection on the sampled chords"""
    m = ctx.m
    f = m.free('segment_closest_point')
    if len(f) != 1: return
    f = f[0]
    I, outs = auto(ctx, f)
    if outs is None: ctx.skip('seed', 'segment_closest_point', 'budget'); return
    nm = [f.arg_names.get(i) for i in range(1, 6)]
    pt, s, e, u0, u1 = map(arg, nm)
    for fs, r, _ in outs:
        for g, t in alts(r, fs):
            u, q = fld(t, '0'), fld(t, '1')
            if u is u0: ctx.ob('seed', 'segment start', q is s or not clean(q), f.span, 'the start parameter is paired with %s' % show(q))
            elif u is u1: ctx.ob('seed', 'segment end', q is e or not clean(q), f.span, 'the end parameter is paired with %s' % show(q))
