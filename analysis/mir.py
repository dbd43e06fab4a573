"""Loader and basic queries over the MIR dump."""
import json, re, functools

class Ty:
    __slots__ = ('m', 'i', 'd')
    def __init__(self, m, i):
        self.m, self.i, self.d = m, i, m.raw['types'][i]
    @property
    def s(self): return self.d['s']
    @property
    def k(self): return self.d['k']
    def adt(self):
        return self.m.adts[self.d['adt']] if self.k == 'adt' else None
    def adt_path(self):
        return self.adt()['path'] if self.k == 'adt' else None
    def args(self):
        return [self.m.ty(x) for x in self.d.get('a', []) if isinstance(x, int)]
    def inner(self):
        return self.m.ty(self.d['t']) if 't' in self.d else None
    def peel(self):
        t = self
        while t.k in ('ref', 'ptr'):
            t = t.inner()
        return t
    def __repr__(self): return self.s

class Fn:
    def __init__(self, m, d, body=None, suffix=''):
        self.m, self.raw = m, d
        self.id = d['id'] + suffix
        self.kind = d['kind']
        self.name = d.get('name', '')
        self.span = d['span']
        self.body = body or d['body']
        self.nargs = self.body['n']
        self.locals = self.body['locals']
        self.blocks = self.body['b']
        self.names = {}
        self.arg_names = {}
        for nm, pl, ai in self.body['dbg']:
            if not pl['p']:
                self.names.setdefault(pl['l'], nm)
            if ai is not None:
                self.arg_names[ai] = nm
        self.upvars = {}
        if self.kind == 'Closure':
            for nm, pl, ai in self.body['dbg']:
                if pl['l'] == 1:
                    fs = [e for e in pl['p'] if e[0] == 'f']
                    if fs:
                        self.upvars[fs[0][1]] = nm
        self._succ = None
    @property
    def file(self): return self.span.split(':')[0]
    def lty(self, l): return self.m.ty(self.locals[l])
    def self_adt(self):
        if 'self_ty' in self.raw:
            return self.m.ty(self.raw['self_ty']).peel().adt_path()
        return None
    @property
    def trait(self): return self.raw.get('trait')
    @property
    def exported(self): return self.raw.get('exported', False)
    def term(self, b): return self.blocks[b]['t']
    def succ(self, b, cleanup=False):
        t = self.blocks[b]['t']
        k = t[0]
        if k == 'goto': return [t[1]]
        if k == 'switch': return [x[1] for x in t[2]] + [t[3]]
        if k == 'drop': return [t[2]]
        if k == 'call': return [t[4]] if t[4] is not None else []
        if k == 'assert': return [t[4]]
        return []
    def reachable_blocks(self):
        if self._succ is None:
            seen, st = {0}, [0]
            while st:
                b = st.pop()
                for s in self.succ(b):
                    if s not in seen and not self._dead(s):
                        seen.add(s); st.append(s)
            self._succ = seen
        return self._succ
    def _dead(self, b):
        x = self.blocks[b]
        return x['t'][0] == 'unreachable' and not x['s']
    def calls(self):
        for b in sorted(self.reachable_blocks()):
            t = self.blocks[b]['t']
            if t[0] == 'call':
                yield b, t
    def __repr__(self): return self.id

class Mir:
    def __init__(self, path):
        self.raw = json.load(open(path))
        self.adts = self.raw['adts']
        self._ty = {}
        self.fns = {}
        self.promoted = {}
        for d in self.raw['fns']:
            f = Fn(self, d)
            self.fns[f.id] = f
            for i, p in enumerate(d['promoted']):
                self.promoted[(f.id, i)] = Fn(self, dict(d, kind='Promoted', name=''), body=p, suffix='::promoted[%d]' % i)
        self.adt_by_path = {a['path']: a for a in self.adts}
    def ty(self, i):
        t = self._ty.get(i)
        if t is None:
            t = self._ty[i] = Ty(self, i)
        return t
    def find(self, pred):
        return [f for f in self.fns.values() if pred(f)]
    def method(self, adt, name, trait=None):
        """unique method of an ADT (last path segment), optionally of a trait (last segment, prefix match)"""
        r = []
        for f in self.fns.values():
            if f.name != name or f.kind == 'Closure': continue
            a = f.self_adt()
            if adt is not None and (a is None or a.split('::')[-1] != adt): continue
            if trait is not None and (not f.trait or f.trait.split('::')[-1] != trait): continue
            if trait is None and f.trait: continue
            r.append(f)
        return r
    def free(self, name, file=None):
        return [f for f in self.fns.values() if f.name == name and 'self_ty' not in f.raw and f.kind == 'Fn'
                and (file is None or f.file.endswith(file))]
    def closures_of(self, f):
        return [g for g in self.fns.values() if g.kind == 'Closure' and g.id.startswith(f.id + '::{closure')]

# ---- pretty printing -------------------------------------------------------------------------
def pplace(p):
    r = '_%d' % p['l']
    for e in p['p']:
        if e[0] == '*': r = '(*%s)' % r
        elif e[0] == 'f': r += '.' + e[2]
        elif e[0] == 'i': r += '[_%d]' % e[1]
        elif e[0] == 'c': r += '[%s%d]' % ('-' if e[3] else '', e[1])
        elif e[0] == 's': r += '[%d..%s%d]' % (e[1], '-' if e[3] else '', e[2])
        elif e[0] == 'd': r += ' as ' + e[2]
        else: r += str(e)
    return r
def pop(o):
    if 'cp' in o: return pplace(o['cp'])
    if 'mv' in o: return 'mv ' + pplace(o['mv'])
    c = o['c']
    if 'fn' in c: return c['fn'].get('rpath', c['fn']['path'])
    for k in ('int', 'float'):
        if k in c: return str(c[k])
    if 'str' in c: return repr(c['str'])
    if 'promoted' in c: return 'promoted[%d]' % c['promoted']
    return 'const ' + c.get('s', c.get('item', '?'))
def prv(r):
    k = r[0]
    if k == 'use': return pop(r[1])
    if k == 'ref': return '&%s%s' % ('mut ' if r[1] == 'mut' else '', pplace(r[2]))
    if k == 'bin': return '%s(%s, %s)' % (r[1], pop(r[2]), pop(r[3]))
    if k == 'un': return '%s(%s)' % (r[1], pop(r[2]))
    if k == 'cast': return 'cast[%s](%s)' % (r[1], pop(r[2]))
    if k == 'discr': return 'discr(%s)' % pplace(r[1])
    if k == 'agg':
        kk = r[1]
        if kk[0] == 'adt': return '%s::%s{%s}' % (kk[1], kk[2], ', '.join('%s: %s' % (n, pop(o)) for n, o in zip(kk[4], r[2])))
        return '%s(%s)' % (kk[0] + (':' + kk[1] if len(kk) > 1 else ''), ', '.join(map(pop, r[2])))
    return str(r)
def pfn(f):
    out = ['fn %s  [%s] nargs=%d' % (f.id, f.span, f.nargs)]
    for i in range(len(f.locals)):
        out.append('  let _%d: %s  %s' % (i, f.lty(i).s, f.names.get(i, '')))
    for b in sorted(f.reachable_blocks()):
        bb = f.blocks[b]
        out.append(' bb%d:' % b)
        for s in bb['s']:
            if s[0] == '=': out.append('    %s = %s' % (pplace(s[1]), prv(s[2])))
            else: out.append('    ' + str(s))
        t = bb['t']
        if t[0] == 'call':
            fn = pop({'c': t[1]}) if 'dyn' not in t[1] else 'dyn ' + pop(t[1]['dyn'])
            out.append('    %s = %s(%s) -> %s   @%s' % (pplace(t[3]), fn, ', '.join(map(pop, t[2])), t[4], bb['sp']))
        elif t[0] == 'switch':
            out.append('    switch %s %s else %s' % (pop(t[1]), t[2], t[3]))
        else:
            out.append('    ' + str(t))
    return '\n'.join(out)

if __name__ == '__main__':
    import sys
    from extract import extract
    m = Mir(extract()[0])
    if len(sys.argv) > 1:
        for f in m.fns.values():
            if re.search(sys.argv[1], f.id): print(pfn(f))
    else:
        for f in m.fns.values(): print(f.id, f.span, 'exported' if f.exported else '')
