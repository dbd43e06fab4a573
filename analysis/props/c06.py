"""C06 booleans without crossings: the result of every (operand kinds, operation, containment) combination, with the intersection
search replaced by its empty answer, compared with the set-algebra table; and which operation the named entry points perform."""
from vf import *
import termlab as T

OPS = ('Union', 'Intersection', 'Difference')
S, C = 'self', 'other'
# (self contains other, other contains self) -> operation -> [(exterior, holes)]
TABLE = {
    (True, False): {'Union': [(S, ())], 'Intersection': [(C, ())], 'Difference': [(S, (C,))]},
    (False, True): {'Union': [(C, ())], 'Intersection': [(S, ())], 'Difference': []},
    (False, False): {'Union': [(S, ()), (C, ())], 'Intersection': [], 'Difference': [(S, ())]},
}

def who(t, names):
    """'self'/'other' when t is that operand, possibly converted to a compound curve of it"""
    while True:
        if t in names: return names[t]
        if t.k == 'call' and t.a[0].split('::')[-1] in ('from', 'into', 'clone', 'new') and len(t.a[1]) == 1: t = t.a[1][0]; continue
        if t.k == 'adt' and t.a[0].endswith('CompoundCurve') and t.a[2] == ('spans',): t = t.a[3][0]; continue
        if t.k == 'arr' and len(t.a[0]) == 1: t = t.a[0][0]; continue
        if t.k == 'f' and t.a[1] == 'spans' and t.a[0] in names: return names[t.a[0]]
        return None

def region(t, names):
    if t.k != 'adt' or not t.a[0].endswith('Region'): return None
    ex, ins = fld(t, 'exterior'), fld(t, 'interiors')
    if ins.k != 'arr': return None
    e, h = who(ex, names), tuple(who(x, names) for x in ins.a[0])
    if e is None or None in h: return None
    return (e, h)

def contains_model(vals, names, seen):
    """override answering containment queries: vals {(outer, inner): True/False/None for an error}"""
    def over(I, st, name, info, args):
        if info['name'] != 'contains' or len(args) != 3: return None
        a = [I.value(st, x) for x in args]
        o, q = who(a[0], names), a[1]
        i = None
        if q.k == 'call' and q.a[0].split('::')[-1] in ('first_point', 'last_point', 'point_at') and q.a[1]: i = who(q.a[1][0], names)
        if o is None or i is None: return None
        seen.append((o, i))
        if o == i: return None
        v = vals[(o, i)]
        return [(st, err(arg('query_error')) if v is None else ok(TRUE if v else FALSE))]
    return over

# ---- outlines at explicit places: squares beside, above, inside and around each other ----
def box_outline(m, cx, cy, h, turn, rev):
    q = [(cx - h, cy - h), (cx + h, cy - h), (cx + h, cy + h), (cx - h, cy + h)]
    q = q[turn:] + q[:turn]
    if rev: q = [q[0]] + q[:0:-1]
    return T.curve(m, 1, [0., 0., 1., 2., 3., 4., 4.], [T.arr([T.cf(x), T.cf(y), T.cf(1.)]) for x, y in q + q[:1]])
PLACES = [(a, b, t, r) for t in (0, 1, 2, 3) for r in (False, True) for a, b in
          (((0., 0., 1.), (5., 1., 1.)), ((5., 1., 1.), (0., 0., 1.)), ((0., 0., 1.), (1., 6., 2.)), ((1., 6., 2.), (0., 0., 1.)),
           ((0., 0., 1.), (-7., -6., 3.)), ((-7., -6., 3.), (0., 0., 1.)),
           ((0., 0., 4.), (1., 2., 1.)), ((1., 2., 1.), (0., 0., 4.)), ((0., 0., 4.), (-2., -1., 1.)), ((-2., -1., 1.), (0., 0., 4.)), ((0., 0., 9.), (0., 0., 1.)), ((0., 0., 1.), (0., 0., 9.)))]
def placed(ctx, plain):
    m = ctx.m
    def kind(ty): return 'c' if ty.endswith('CompoundCurve') else 'n' if ty.endswith('NurbsCurve') else None
    def inside(p, b): return abs(p[0] - b[0]) < b[2] and abs(p[1] - b[1]) < b[2]
    for f in sorted(plain, key=lambda x: x.id):
        ks = [kind(f.self_adt() or ''), kind(f.lty(3).peel().adt_path() or '')]
        if None in ks: ctx.skip('places', short(f.id), 'operand kinds'); continue
        for opn in OPS:
            v = unit_adt(m, 'BooleanOperation', opn)
            for a, b, turn, rev in PLACES:
                cs = [box_outline(m, *a, turn, rev), box_outline(m, *b, (turn + 1) % 4, rev)]
                es = [c if k == 'n' else T.build(m, 'CompoundCurve', {'spans': arr([c])}) for c, k in zip(cs, ks)]
                if None in es: ctx.skip('places', short(f.id), 'fields changed'); return
                pts = [fld(c, 'control_points') for c in cs]
                def which(t):
                    """the operand with these control points, None for anything else"""
                    if t is None: return None
                    if t.k == 'adt' and 'spans' in t.a[2]:
                        sp = fld(t, 'spans')
                        return which(sp.a[0][0]) if sp.k == 'arr' and len(sp.a[0]) == 1 else None
                    if t.k == 'adt' and 'control_points' in t.a[2]: return next(((S, C)[i] for i, p in enumerate(pts) if fld(t, 'control_points') is p), None)
                def over(I, st, name, info, args):
                    if info['name'] == 'find_intersections': return [(st, ok(arr(())))]
                    if info['name'] == 'contains' and len(args) == 3:
                        x = [I.value(st, q) for q in args]
                        o, p = which(x[0]), T.vecof(x[1])
                        xy = [numeric(c) for c in p] if p else [None]
                        if o is None or None in xy: return None
                        return [(st, ok(TRUE if inside(xy, a if o == S else b) else FALSE))]
                    if info['name'] in ('into', 'from') and len(args) == 1:
                        x = I.value(st, args[0])
                        if x.k == 'adt' and x.a[0].endswith('CompoundCurve'): return [(st, x)]
                pn = [f.arg_names.get(i, 'a%d' % i) for i in range(1, f.nargs + 1)]
                inst = '%s %s, outlines at %s and %s' % (short(f.id), opn, a, b)
                outs = T.summary(ctx, f, [es[0], v, es[1], arg('OPTION')], 3, more=over)
                if not outs: ctx.skip('places', inst, 'not interpreted'); continue
                rel = (inside(b, a) and a[2] > b[2], inside(a, b) and b[2] > a[2])
                want = TABLE[rel][opn]
                for fs, me, r in outs:
                    if fs: ctx.skip('places', inst, showf(fs, 3)[:90]); continue
                    if is_adt(r, RES, 'Err'): ctx.ob('places', inst, False, f.span, 'fails instead of returning %s' % (want,)); continue
                    rg = fld(r.a[3][0], 'regions') if is_adt(r, RES, 'Ok') else None
                    if rg is None or rg.k != 'arr': ctx.skip('places', inst, show(r, 3)[:90]); continue
                    got = []
                    for x in rg.a[0]:
                        ins = fld(x, 'interiors') if x.k == 'adt' else None
                        got.append((which(fld(x, 'exterior')), tuple(which(h) for h in ins.a[0])) if ins is not None and ins.k == 'arr' else (None, ()))
                    if any(e is None or None in h for e, h in got): ctx.skip('places', inst, 'region not recognised'); continue
                    ctx.ob('places', inst, sorted(got) == sorted(want), f.span, '%s gives %s instead of %s (exterior, holes)' % (inst, got, want))
                    ctx.count('placed outlines')

def check(ctx):
    m = ctx.m
    ctx.rule('table', 'with an empty intersection list, the regions returned for each operation and containment of first points equal the set-algebra table; when both containments are claimed the result is an error')
    ctx.rule('queries', 'the containments decided on are those of one operand by the other (no operand is tested against itself), and a failed containment query fails the operation')
    ctx.rule('search', 'the intersections given to the clipping are those between the two operands (their order is decided by C07)')
    ctx.rule('places', 'for square outlines at explicit places (beside, above, around and inside each other, from every corner, in both directions) without intersections, the regions returned equal the set-algebra table')
    ctx.rule('named', 'union, intersection and difference perform the operation of their name on (self, other, option)')
    ctx.rule('forward', 'a region with a curve performs the same operation with the compound curve made of that curve alone')
    ctx.rule('convert', 'converting a curve to a compound curve or region keeps exactly that curve, with no holes')
    n = 0
    impls = [f for f in m.fns.values() if f.name == 'boolean' and (f.trait or '').endswith('Boolean') and f.kind != 'Closure' and not f.raw.get('trait_default')]
    plain = [f for f in impls if f.self_adt() and not f.self_adt().endswith('Region')]
    regs = [f for f in impls if f.self_adt() and f.self_adt().endswith('Region')]
    for f in sorted(plain, key=lambda x: x.id):
        sn = short(f.id)
        pn = [f.arg_names.get(i, 'a%d' % i) for i in range(1, f.nargs + 1)]
        names = {arg(pn[0]): S, arg(pn[2]): C}
        for opn in OPS:
            v = unit_adt(m, 'BooleanOperation', opn)
            if v is None: ctx.anchor_missing('BooleanOperation::' + opn); return
            inst = '%s %s' % (sn, opn)
            stop = False
            for sc, cs in ((True, True), (True, False), (False, True), (False, False), (None, True), (None, False), (True, None), (False, None)):
                if stop: break
                key = '%s self%sother other%sself' % (inst, '>' if sc else '|' if sc is False else '?', '>' if cs else '|' if cs is False else '?')
                I = engine(ctx)
                seen, asked = [], []
                cm = contains_model({(S, C): sc, (C, S): cs}, names, asked)
                def over(I, st, name, info, args):
                    if info['name'] == 'find_intersections':
                        seen.append([I.value(st, a) for a in args])
                        return [(st, ok(arr(())))]
                    return cm(I, st, name, info, args)
                I.override = over
                try: outs = I.auto(f, {pn[1]: v})
                except Budget: ctx.skip('table', key, 'budget'); continue
                if not seen: ctx.anchor_missing('find_intersections call of ' + sn); stop = True; continue
                for a in seen:
                    w = [who(x, names) for x in a[:2]]
                    if None in w: ctx.skip('search', inst, 'operands not recognised')
                    else: ctx.ob('search', inst, sorted(w) == sorted([S, C]), f.span, 'intersections are searched between %s and %s instead of self and other' % tuple(w))
                if not ctx.ob('queries', inst, not any(o == i for o, i in asked), f.span, 'an operand is tested for containment in itself'): stop = True; continue
                if not asked: ctx.skip('table', key, 'no containment query recognised'); continue
                for s, r in outs:
                    for fs, t in deep_alts(r, s.f):
                        n += 1
                        if sc is None and (S, C) in asked or cs is None and (C, S) in asked:
                            if is_adt(t, RES, 'Ok'): ctx.ob('queries', key, False, f.span, 'a failed containment query is answered with success')
                            elif is_adt(t, RES, 'Err'): ctx.ob('queries', key)
                            continue
                        if fs: ctx.skip('table', key, 'depends on ' + showf(fs)); continue
                        if sc and cs:
                            if is_adt(t, RES, 'Ok'): ctx.ob('table', key, False, f.span, 'succeeds although each operand claims to contain the other')
                            elif is_adt(t, RES, 'Err'): ctx.ob('table', key)
                            else: ctx.skip('table', key, 'shape')
                            continue
                        if sc is None or cs is None: continue
                        want = TABLE[(sc, cs)][opn]
                        if is_adt(t, RES, 'Err'): ctx.ob('table', key, False, f.span, 'fails instead of returning %s' % (want,)); continue
                        if not is_adt(t, RES, 'Ok'): ctx.skip('table', key, 'shape'); continue
                        rg = fld(t.a[3][0], 'regions')
                        if rg.k != 'arr': ctx.skip('table', key, 'regions not recognised: ' + show(rg, 3)); continue
                        rs = [region(x, names) for x in rg.a[0]]
                        if None in rs: ctx.skip('table', key, 'region not recognised'); continue
                        ctx.ob('table', key, sorted(rs) == sorted(want), f.span, 'returns %s instead of %s (exterior, holes)' % (rs, want))
    ctx.floor('boolean impls without regions', len(plain), 4)
    ctx.count('table rows decided', n)
    placed(ctx, plain)
    # named operations
    for opn in OPS:
        nm = opn.lower()
        fs = [f for f in m.fns.values() if f.name == nm and (f.raw.get('trait_default') or f.trait or '').endswith('Boolean') and f.kind != 'Closure']
        if not fs: ctx.anchor_missing('Boolean::' + nm); continue
        for f in fs:
            I, outs = auto(ctx, f)
            pn = [f.arg_names.get(i, 'a%d' % i) for i in range(1, f.nargs + 1)]
            if outs is None: ctx.skip('named', nm, 'budget'); continue
            for fs_, r, mu in outs:
                for g, t in alts(r, fs_):
                    if t.k != 'call' or t.a[0].split('::')[-1] != 'boolean' or len(t.a[1]) != 4: ctx.skip('named', nm, 'shape ' + show(t, 3)); continue
                    a = t.a[1]
                    want = unit_adt(m, 'BooleanOperation', opn)
                    ctx.ob('named', nm, a[1] is want and a[0] is arg(pn[0]) and a[2] is arg(pn[1]) and a[3] is arg(pn[2]), f.span,
                           '%s performs %s' % (nm, show(t)))
    # forwarding and conversions
    for f in regs:
        ot = f.lty(3).peel().adt_path() or ''
        if not ot.endswith('NurbsCurve'): continue
        I, outs = auto(ctx, f)
        pn = [f.arg_names.get(i, 'a%d' % i) for i in range(1, f.nargs + 1)]
        if outs is None: ctx.skip('forward', short(f.id), 'budget'); continue
        for fs_, r, mu in outs:
            for g, t in alts(r, fs_):
                if t.k != 'call' or t.a[0].split('::')[-1] != 'boolean' or len(t.a[1]) != 4: ctx.skip('forward', short(f.id), 'shape'); continue
                a = t.a[1]
                good = a[0] is arg(pn[0]) and a[1] is arg(pn[1]) and who(a[2], {arg(pn[2]): C}) == C and a[3] is arg(pn[3])
                ctx.ob('forward', short(f.id), good, f.span, 'performs %s' % show(t))
    k = 0
    for f in m.fns.values():
        if f.name != 'from' or f.kind == 'Closure' or not (f.trait or '').endswith('From') or f.nargs != 1: continue
        tgt, src = f.self_adt() or '', f.lty(1).peel().adt_path() or ''
        tg, sr = tgt.split('::')[-1], src.split('::')[-1]
        if tg not in ('CompoundCurve', 'Region') or sr not in ('NurbsCurve', 'CompoundCurve'): continue
        k += 1
        a = arg(f.arg_names.get(1, 'a1'))
        I, outs = auto(ctx, f, inline=('from', 'into', 'new_unchecked', 'new_unchecked_aligned'))
        if outs is None: ctx.skip('convert', '%s<-%s' % (tg, sr), 'budget'); continue
        for fs_, r, mu in outs:
            for g, t in alts(r, fs_):
                c = t
                if tg == 'Region':
                    if t.k != 'adt': ctx.skip('convert', '%s<-%s' % (tg, sr), 'shape'); continue
                    ins = fld(t, 'interiors')
                    if ins.k == 'arr': ctx.ob('convert', '%s<-%s holes' % (tg, sr), ins is arr(()), f.span, 'conversion adds holes')
                    c = fld(t, 'exterior')
                w = who(c, {a: S})
                if w: ctx.ob('convert', '%s<-%s' % (tg, sr)); continue
                if clean(c) and c.k == 'adt' and fld(c, 'spans').k in ('arr', 'seq', 'slice', 'cat'): ctx.ob('convert', '%s<-%s' % (tg, sr), False, f.span, 'converts to %s' % show(c))
                else: ctx.skip('convert', '%s<-%s' % (tg, sr), 'shape')
    ctx.floor('conversions', k, 2)
