"""Helpers of the checks that use the value-flow engine."""
from interp import *
from util import *
import models

UNCLEAN = ('loop', 'phi', 'havoc', 'undef', 'heap', 'other', 'agg')
_cg = {}
def callgraph(m):
    c = _cg.get(id(m))
    if c is None: c = _cg[id(m)] = CallGraph(m)
    return c
def engine(ctx, **k): return Interp(ctx.m, callgraph(ctx.m), **k)
def unclean(t): return find(t, lambda x: x.k in UNCLEAN or x.k == 'rng' and any(x.a[3]) or x.k == 'fill' and False)
def clean(t): return not unclean(t)
def auto(ctx, f, over=None, facts=EMPTY, **k):
    """(engine, [(facts, return, {i: final &mut})]) or (engine, None) when the budget is exhausted"""
    I = engine(ctx, **k)
    try: outs = I.auto(f, over, facts)
    except Budget: return I, None
    return I, [(s.f, r, {k[1]: v for k, v in s.s.items() if k[0] == 'r'}) for s, r in outs]
def alts(t, facts=EMPTY):
    """alternatives of a term under facts: [(facts, term)]"""
    t = simplify(t, facts) if facts else t
    if t.k == 'gphi':
        out = []
        for f, x in t.a[0]:
            if not contradictory(facts | f): out += alts(x, facts | f)
        return out
    return [(facts, t)]
def deep_alts(t, facts=EMPTY, limit=64):
    """alternatives with every guarded choice inside resolved"""
    work, out = [(facts, t)], []
    while work:
        fs, x = work.pop()
        x = simplify(x, fs)
        g = find(x, lambda y: y.k == 'gphi')
        if not g or len(out) + len(work) > limit: out.append((fs, x)); continue
        y = min(g, key=lambda z: z.n)
        for f, z in y.a[0]:
            f2 = fs | f
            if not contradictory(f2): work.append((f2, subst(x, {y: z})))
    return out
def arg(n): return mk('arg', n)
def fld(t, *names):
    for n in names: t = project(t, n)
    return t
def unit_adt(m, path_end, var):
    a = [x for x in m.adts if x['path'].endswith(path_end)]
    if len(a) != 1: return None
    return adt(a[0]['path'], var, (), ())
def fields_of(m, path):
    a = m.adt_by_path[path]
    return [(x['n'], x['t']) for x in a['v'][0]['f']]
def roots(t):
    """argument projections mentioned in a term"""
    return find(t, lambda x: x.k == 'arg')

class Rec:
    """records obligations in a worker process"""
    def __init__(self, m): self.m, self.log = m, []
    def ob(self, rule, instance, ok=True, site='', msg=''):
        self.log.append(('ob', (rule, instance, bool(ok), site, msg))); return ok
    def skip(self, *a): self.log.append(('skip', a))
    def count(self, *a): self.log.append(('count', a))
    def violation(self, *a): self.log.append(('violation', a))
    def anchor_missing(self, *a): self.log.append(('anchor_missing', a))
_work = None
def _job(i):
    fn, m, items = _work
    rec = Rec(m)
    r = fn(rec, *items[i])
    return r, rec.log
def pmap(ctx, fn, items, jobs=8):
    """fn(ctx, *item) for every item in worker processes; obligations are replayed in order; results returned"""
    import multiprocessing as mp
    global _work
    _work = (fn, ctx.m, items)
    callgraph(ctx.m)
    with mp.get_context('fork').Pool(min(jobs, max(1, len(items)))) as pool:
        res = pool.map(_job, range(len(items)), chunksize=max(1, len(items) // (jobs * 4)))
    out = []
    for r, log in res:
        for nm, a in log: getattr(ctx, nm)(*a)
        out.append(r)
    return out
