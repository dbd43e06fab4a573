"""C24 booleans of regions with holes: every region boolean is interpreted with the booleans of single outlines replaced by set algebra on the cells of a grid, and
the regions it returns are compared, as sets, with the set operation on the operands."""
from asklab import *
from vf import *
import itertools

class Unknown(Exception): pass
def check(ctx):
    ctx.rule('set', 'the regions returned cover exactly the union, intersection or difference of the two operands, each with its holes left out')
    ctx.rule('valid', 'the regions returned do not overlap, and the holes of each lie inside its exterior, apart from each other')
    ctx.assumptions.append('the booleans of two single outlines are exact and return every region of the result (C06, C07); outlines are rectangles, or made of them by earlier steps, that do not touch')
    m = ctx.m
    fs = [g for g in m.fns.values() if g.name == 'boolean' and (g.self_adt() or '').endswith('::Region')]
    kinds = {}
    for g in fs:
        ty = (g.lty(3).peel().adt_path() or '').split('::')[-1]
        kinds[ty] = g
    for k in ('NurbsCurve', 'CompoundCurve', 'Region'):
        if k not in kinds: ctx.anchor_missing('boolean of a region with ' + k)
    for k, g in sorted(kinds.items()):
        for a, b in itertools.product(FIRST, SECOND):
            if k != 'Region' and len(b) > 1: continue
            for opn in ('Union', 'Intersection', 'Difference'): one(ctx, k, kinds, a, b, opn)

# an operand is (exterior, hole...), an outline a rectangle (x0, y0, x1, y1) or several overlapping ones
E0, H1, H2 = (0, 0, 20, 20), (2, 2, 8, 18), (12, 3, 17, 16)
BAY = ((18, 3, 30, 6), (26, 3, 30, 15), (18, 12, 30, 15))      # closes a bay beside the first operand
FIRST = [(E0,), (E0, H1), (E0, H1, H2), (E0, H2, H1)]
OUTER = [('beside', (30, 1, 40, 9)), ('around', (-10, -11, 41, 42)), ('between the holes', (9, 5, 11, 15)), ('in the first hole', (3, 5, 6, 10)), ('in the second hole', (13, 5, 16, 9)),
         ('around the first hole', (1, 1, 8.5, 19)), ('around both holes', (1, 1, 19, 19)), ('over a corner', (18, 18.5, 25, 26)), ('over a side of a hole', (7, 6, 10, 9)),
         ('over a side of both holes', (7, 6, 13, 9)), ('over a hole', (-5, 6, 5, 10)), ('over a side of the region', (-5, 6, 1, 10)), ('over everything', (-3, 6, 23, 10)), ('over a hole from above', (1, -4, 9, 24)), ('round a bay', BAY)]
SECOND = [(r,) for n, r in OUTER]
SECOND += [((-10, -11, 41, 42), (-5, -6, 30, 31)),                       # the first operand lies in its hole
           ((-10, -11, 41, 42), (25, 25, 35, 36)), ((-10, -11, 41, 42), (10, 6, 11, 7)), ((-10, -11, 41, 42), (3, 5, 6, 10)), ((-10, -11, 41, 42), (1, 1, 9, 19)), ((-10, -11, 41, 42), (7, 6, 10, 9)),
           ((-10, -11, 41, 42), (18, 17, 27, 26)), ((30, 1, 40, 9), (32, 3, 34, 5)), ((1, 1, 19, 19), (1.5, 1.5, 18.5, 18.5)), ((1, 1, 19, 19), (9, 4, 11, 6)), ((1, 1, 19, 19), (9, 4, 11, 6), (9, 8, 11, 14)),
           ((1, 1, 19, 19), (3, 5, 6, 10), (9, 8, 11, 14)), ((3, 5, 7, 15), (4, 6, 6, 8)), ((9, 5, 11, 15), (9.5, 6, 10.5, 7)), ((-10, -11, 41, 42), (-5, -6, -2, -3), (-5, 25, 25, 30)), ((18, 18.5, 25, 26), (21, 21, 23, 23)),
           ((15, -5, 30, 25), (22, 1, 25, 19)), ((15, -5, 30, 25), (18, 1, 25, 19)), ((-10, -11, 41, 42), (-5, -6, 30, 31), (33, 33, 35, 35)), (BAY, (27, 7, 28, 9)), (BAY, (18.5, 4, 19, 5))]

class Plane:
    """sets of grid cells; outlines are numbered"""
    def __init__(s, rects):
        rects = [q for r in rects for q in s.pieces(r)]
        s.xs = sorted({v for r in rects for v in (r[0], r[2])}); s.ys = sorted({v for r in rects for v in (r[1], r[3])})
        s.gaps = False
        s.sets, s.ids = [], {}
    @staticmethod
    def pieces(r): return list(r) if isinstance(r[0], tuple) else [r]
    def rect(s, r): return s.id(frozenset((i, j) for i in range(len(s.xs) - 1) for j in range(len(s.ys) - 1) for q in s.pieces(r) if q[0] <= s.xs[i] < q[2] and q[1] <= s.ys[j] < q[3]))
    def id(s, c):
        if c not in s.ids: s.ids[c] = len(s.sets); s.sets.append(c)
        return s.ids[c]
    def parts(s, c):
        c = set(c); out = []
        while c:
            part, todo = set(), [min(c)]
            while todo:
                x = todo.pop()
                if x in c:
                    c.discard(x); part.add(x)
                    todo += [(x[0] + 1, x[1]), (x[0] - 1, x[1]), (x[0], x[1] + 1), (x[0], x[1] - 1)]
            out.append(frozenset(part))
        return out
    def edges(s, c):
        return {((x, y), d) for x, y in c for d, (a, b) in enumerate(((1, 0), (-1, 0), (0, 1), (0, -1))) if (x + a, y + b) not in c}
    def lines(s, c):
        """the border as unoriented unit edges"""
        out = set()
        for (x, y), d in s.edges(c): out.add(('v', x + 1, y) if d == 0 else ('v', x, y) if d == 1 else ('h', x, y + 1) if d == 2 else ('h', x, y))
        return out
    def boolean(s, op, a, b, flip=False):
        A, B = s.sets[a], s.sets[b]
        if a == b or s.lines(A) & s.lines(B): raise Unknown('outlines touch')
        if not A & B: return {'Union': [(a, ()), (b, ())], 'Intersection': [], 'Difference': [(a, ())]}[op]
        if B < A: return {'Union': [(a, ())], 'Intersection': [(b, ())], 'Difference': [(a, (b,))]}[op]
        if A < B: return {'Union': [(b, ())], 'Intersection': [(a, ())], 'Difference': []}[op]
        out = []
        for p in s.parts(A | B if op == 'Union' else A & B if op == 'Intersection' else A - B):
            box = {(i, j) for i in range(-1, len(s.xs)) for j in range(-1, len(s.ys))}
            out += [(s.id(q), ()) for q in s.loops(box, p)][::-1 if flip else 1]
        return out
    def loops(s, box, p):
        """the outline of p and the outlines of the gaps it encloses, as sets"""
        around = s.parts(box - p)
        outside = next(q for q in around if (-1, -1) in q)
        s.gaps |= len(around) > 1
        return [frozenset(box - outside)] + [q for q in around if q is not outside]

def one(ctx, kind, kinds, a, b, opn, flip=False):
    f = kinds[kind]
    if ctx.counts.get('too slow', 0) > 8: ctx.skip('set', kind, 'given up after too many slow cases'); return
    m = ctx.m
    inst = '%s of %s and %s %s%s' % (opn.lower(), ' without '.join(map(str, a)), {'NurbsCurve': 'the curve', 'CompoundCurve': 'the compound curve', 'Region': 'the region'}[kind], ' without '.join(map(str, b)), ', gaps first' if flip else '')
    pl = Plane(list(a) + list(b))
    def outline(i): return mk('call', 'outline', (ci(i),))
    def num(t):
        t = bare(t)
        while t.k == 'adt' and t.a[0].endswith('CompoundCurve') and t.a[2] == ('spans',) and fld(t, 'spans').k == 'arr' and len(fld(t, 'spans').a[0]) == 1: t = bare(fld(t, 'spans').a[0][0])
        return int(numeric(t.a[1][0])) if t.k == 'call' and t.a[0] == 'outline' else None
    ra, rb = [pl.rect(r) for r in a], [pl.rect(r) for r in b]
    def region(ids): return build(m, 'Region', {'exterior': outline(ids[0]), 'interiors': arr([outline(i) for i in ids[1:]])})
    x, y = region(ra), region(rb) if kind == 'Region' else outline(rb[0])
    v = unit_adt(m, 'BooleanOperation', opn)
    if x is None or v is None: ctx.skip('set', inst, 'fields changed'); return
    OPT = arg('OPT')
    def read(r):
        if r is None or not r.k == 'adt' or not {'exterior', 'interiors'} <= set(r.a[2]): return None
        e, h = num(fld(r, 'exterior')), bare(fld(r, 'interiors'))
        hs = [num(q) for q in h.a[0]] if h.k == 'arr' else [None]
        return None if e is None or None in hs else (e, tuple(hs))
    def ov(I, st, name, info, args):
        nm = info['name']
        if nm == 'boolean' and len(args) == 4:
            w = [I.value(st, q) for q in args]
            p, q = num(w[0]), num(w[2])
            o = bare(w[1])
            if p is None or q is None or o.k != 'adt': return None
            rs = pl.boolean(o.a[1], p, q, flip)
            c = build(m, 'Clip', {'regions': arr([region((e,) + tuple(h)) for e, h in rs]), 'info': arg('INFO')})
            return [(st, ok(c))]
        if nm == 'boolean' and len(args) == 4 and (name.split('::')[-2] == 'Boolean' or not info.get('resolved', True)):      # called through a type parameter
            w = bare(I.value(st, args[0]))
            if w.k == 'adt' and w.a[0].endswith('Region'):
                q = bare(I.value(st, args[2]))
                g = kinds.get('Region' if q.k == 'adt' and q.a[0].endswith('Region') else 'CompoundCurve')
                if g is not None: return I.call_fn(st, g, args, ('generic', len(pl.sets)))
        if nm in ('first_point', 'last_point', 'start', 'end') and len(args) == 1:
            p = num(I.value(st, args[0]))
            return None if p is None else [(st, mk('call', 'place', (ci(p),)))]
        if nm == 'contains' and len(args) == 3:
            p, q = num(I.value(st, args[0])), bare(I.value(st, args[1]))
            if p is None or q.k != 'call' or q.a[0] != 'place': return None
            c = min(pl.sets[int(numeric(q.a[1][0]))])
            return [(st, ok(TRUE if c in pl.sets[p] else FALSE))]
        if nm in ('into', 'from') and len(args) == 1 and num(I.value(st, args[0])) is not None:
            to = name.split(' as ')[0]
            if 'Region' in to: return [(st, region([num(I.value(st, args[0]))]))]
            if 'CompoundCurve' in to: return [(st, I.value(st, args[0]))]
        if nm in ('clone', 'to_owned') and len(args) == 1:
            w = bare(I.value(st, args[0]))
            if num(w) is not None: return [(st, w)]
        return None
    I = engine(ctx, inline=lambda g: True, opaque=lambda g: None)
    I.unroll, I.budget, I.t_end, I.exact, I.cap, I.recursion, I.override = 60, 3000000, time.time() + 8, True, 64, 8, ov
    try:
        with deciding(Case()): outs = [(s.f, I.value(s, r)) for s, r in I.auto(f, {f.arg_names.get(1): x, f.arg_names.get(2): v, f.arg_names.get(3): y, f.arg_names.get(4): some(OPT)})]
    except Unknown as e: ctx.count('left out: ' + str(e)); return
    except Budget: ctx.count('too slow'); outs = None
    if outs is None: ctx.skip('set', inst, 'budget'); return
    if not outs: ctx.ob('set', inst, False, f.span, inst + ' panics'); return
    H = lambda ids: pl.sets[ids[0]] - frozenset().union(*[pl.sets[i] for i in ids[1:]])
    A, B = H(ra), H(rb)
    want = A | B if opn == 'Union' else A & B if opn == 'Intersection' else A - B
    for fs, r in outs:
        r = bare(r)
        if not (r.k == 'adt' and r.a[1] in ('Ok', 'Err')): ctx.skip('set', inst, 'result ' + show(r, 3)); continue
        if r.a[1] == 'Err': ctx.ob('set', inst, False, f.span, inst + ' fails although every step succeeds'); continue
        rs = fld(bare(r.a[3][0]), 'regions')
        got = [read(bare(q)) for q in rs.a[0]] if rs.k == 'arr' else [None]
        if None in got: ctx.skip('set', inst, 'regions ' + show(rs, 3)); continue
        cover = [H((e,) + h) for e, h in got]
        have = frozenset().union(*cover)
        ctx.ob('set', inst, have == want, f.span, '%s: the result %s' % (inst, ' and '.join(x for x in ('leaves out a part that belongs to it' if want - have else '', 'has a part that does not belong to it' if have - want else '') if x)))
        good = sum(map(len, cover)) == len(have) and all(pl.sets[q] <= pl.sets[e] for e, h in got for q in h) and all(not (pl.sets[p] & pl.sets[q]) for e, h in got for p, q in itertools.combinations(h, 2))
        ctx.ob('valid', inst, good, f.span, '%s: the regions overlap, or holes of one lie outside it or on each other: %s' % (inst, got))
    ctx.count('region booleans')
    if pl.gaps and not flip: one(ctx, kind, kinds, a, b, opn, True)
