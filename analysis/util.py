"""Shared MIR helpers."""
from mir import *

def is_src(f):
    """library code, not unit tests (tests are not compiled without cfg(test), kept for safety)"""
    return '/tests' not in f.file

def callee(t):
    """(path, name, local id or None, info) of a call terminator"""
    c = t[1]
    if 'dyn' in c or 'fn' not in c:
        return ('<dyn>', '<dyn>', None, {})
    x = c['fn']
    rp = x.get('rpath', x['path'])
    return (rp, x['name'], rp if x.get('local') else None, x)

def short(fid):
    return re.sub(r'\b(?:[a-z_0-9]+::)+', '', fid)

def fn_operands(f):
    """constant function operands that are not the callee (functions passed as values), with block"""
    for b in f.reachable_blocks():
        bb = f.blocks[b]
        def ops():
            for s in bb['s']:
                if s[0] == '=':
                    r = s[2]
                    if r[0] == 'use': yield r[1]
                    elif r[0] == 'cast': yield r[2]
                    elif r[0] == 'agg':
                        for o in r[2]: yield o
            t = bb['t']
            if t[0] == 'call':
                for o in t[2]: yield o
        for o in ops():
            if 'c' in o and 'fn' in o['c']:
                yield b, o['c']['fn']

class CallGraph:
    """edges over local functions; trait methods that stay generic are resolved to every local impl (CHA);
    a closure is an edge from the function that creates it"""
    def __init__(self, m):
        self.m = m
        self.edges = {f: set() for f in m.fns}
        self.ext = {f: [] for f in m.fns}       # (callee path, block, info)
        by_trait = {}
        for f in m.fns.values():
            if f.trait and f.kind != 'Closure':
                by_trait.setdefault((f.trait, f.name), []).append(f.id)
        self.by_trait = by_trait
        local_traits = {f.raw['trait_default'] for f in m.fns.values() if 'trait_default' in f.raw}
        self.foreign = {}
        for f in m.fns.values():
            if f.trait and f.self_adt() and f.trait.split('::')[0] in ('std', 'core', 'alloc', 'argmin', 'serde', 'spade', 'nalgebra'):
                self.foreign.setdefault(f.self_adt(), set()).add(f.id)
        self._la = {}
        for f in m.fns.values():
            for b, t in f.calls():
                self._edge(f, b, callee(t))
            for b, x in fn_operands(f):
                rp = x.get('rpath', x['path'])
                self._edge(f, b, (rp, x['name'], rp if x.get('local') else None, x))
            for b in f.reachable_blocks():
                for s in f.blocks[b]['s']:
                    if s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] == 'closure':
                        self.edges[f.id].add(s[2][1][1])
    def _edge(self, f, b, c):
        path, name, loc, info = c
        if loc is not None:
            if loc in self.m.fns:
                self.edges[f.id].add(loc)
            tr = info.get('trait')
            if tr and (loc == info.get('path')):       # unresolved: any impl, or the default
                for g in self.by_trait.get((tr, name), []): self.edges[f.id].add(g)
        else:
            tr = info.get('trait')
            if tr and (tr, name) in self.by_trait and info.get('rpath') is None:
                for g in self.by_trait[(tr, name)]: self.edges[f.id].add(g)
            if path == '<T as std::convert::Into<U>>::into':
                # From impls of the crate for the target type
                ra = info.get('ra') or info.get('a') or []
                tgt = self.m.ty(ra[1]) if len(ra) > 1 and isinstance(ra[1], int) else None
                for g in self.by_trait.get(('std::convert::From', 'from'), []):
                    gf = self.m.fns[g]
                    if tgt is None or gf.self_adt() == tgt.peel().adt_path():
                        self.edges[f.id].add(g)
            self.ext[f.id].append((path, b, info))
            # code outside the crate may call back into impls of foreign traits on the crate's types
            for i in (info.get('ra') or []) + (info.get('a') or []):
                if isinstance(i, int):
                    for a in self._local_adts(i):
                        for g in self.foreign.get(a, ()): self.edges[f.id].add(g)
    def _local_adts(self, i):
        if i not in self._la:
            self._la[i] = set()
            r, st, seen = set(), [i], set()
            while st:
                j = st.pop()
                if j in seen: continue
                seen.add(j)
                d = self.m.raw['types'][j]
                if d['k'] == 'adt':
                    a = self.m.adts[d['adt']]
                    if a['local']: r.add(a['path'])
                st += [x for x in d.get('a', []) if isinstance(x, int)]
                if 't' in d: st.append(d['t'])
            self._la[i] = r
        return self._la[i]
    def reach(self, roots, cut=()):
        seen, st = {}, []
        for r in roots:
            if r not in cut:
                seen[r] = None; st.append(r)
        while st:
            x = st.pop()
            for y in sorted(self.edges.get(x, ())):
                if y not in seen and y not in cut:
                    seen[y] = x; st.append(y)
        return seen
    def chain(self, seen, x):
        r = []
        while x is not None:
            r.append(short(x)); x = seen[x]
        return ' <- '.join(r)
