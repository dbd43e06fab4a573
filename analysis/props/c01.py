"""C01 serialization round trip: which key every component is written under and read from, decided on the value flow of the
Serialize impls and of the Deserialize visitors (hand written or derived)."""
from vf import *

SIX = {'NurbsCurve', 'NurbsSurface', 'TrimmedSurface', 'CompoundCurve', 'Region', 'KnotVector'}

def chain(t):
    """the calls a serializer state went through, in order"""
    out = []
    while True:
        if t.k == 'post' or t.k == 'call':
            nm, args = (t.a[0], t.a[2]) if t.k == 'post' else (t.a[0], t.a[1])
            out.append((nm, args))
            if not args: break
            t = args[0]
        elif t.k == 'vf': t = t.a[0]
        else: break
    return out[::-1]

def own_field(v, self_, names):
    """the field of self a serialized value is"""
    for n in names:
        if v is project(self_, n): return n
    return None

def serialize(ctx, f, short_name, path):
    fs = fields_of(ctx.m, path)
    names = [n for n, t in fs]
    I, outs = auto(ctx, f)
    if outs is None: ctx.skip('write', short_name, 'budget'); return None
    self_ = arg(f.arg_names.get(1, 'self'))
    keymap, n = None, 0
    for facts, r, mu in outs:
        for fs2, t in alts(r, facts):
            if is_adt(t, RES, 'Err'): continue
            if is_adt(t, RES, 'Ok'): t = t.a[3][0]
            ch = chain(t)
            n += 1
            calls = [(nm, a) for nm, a in ch if nm == 'serialize_field']
            skips = [(nm, a) for nm, a in ch if nm == 'skip_field']
            head = [(nm, a) for nm, a in ch if nm in ('serialize_struct', 'serialize_newtype_struct')]
            if not head:
                # straight delegation: self.0.serialize(serializer)
                d = [(nm, a) for nm, a in ch if nm == 'serialize']
                if len(names) == 1 and len(d) == 1 and d[0][1][0] is project(self_, names[0]):
                    keymap = ('newtype',); ctx.ob('write', '%s.%s' % (short_name, names[0])); continue
                ctx.skip('write', short_name, 'shape not recognised: %s' % show(t, 4)); return None
            if head[0][0] == 'serialize_newtype_struct':
                v = head[0][1][2]
                if len(names) == 1:
                    ctx.ob('write', '%s.%s' % (short_name, names[0]), v is project(self_, names[0]), f.span, 'the newtype writes %s' % show(v))
                    keymap = ('newtype',)
                continue
            km, order, used = {}, [], {}
            ok = True
            for nm, a in calls:
                if len(a) < 3 or a[1].k != 'c': ok = False; break
                key, v = a[1].a[1], a[2]
                o = own_field(v, self_, names)
                if o is None:
                    # one component carried in another shape is not decided; anything else is a wrong value
                    m = {x.a[1] for x in find(v, lambda x: x.k == 'f' and x.a[0] is self_)}
                    if m: 
                        ctx.ob('write', '%s["%s"]' % (short_name, key), False, f.span, 'key "%s" is written from %s, not from a component of the value' % (key, show(v)))
                    elif v.k == 'c' or is_adt(v, OPT):
                        ctx.ob('write', '%s["%s"]' % (short_name, key), False, f.span, 'key "%s" is written from a constant' % key)
                    else: ctx.skip('write', '%s["%s"]' % (short_name, key), 'value not recognised')
                    ok = False; continue
                if key in km:
                    ctx.ob('write', '%s["%s"]' % (short_name, key), False, f.span, 'key "%s" is written twice' % key); ok = False
                km[key] = o; order.append(o); used[o] = key
            for x in names:
                if ok or x in used:
                    ctx.ob('write', '%s.%s' % (short_name, x), x in used, f.span, 'component %s is not written on a path that succeeds%s' %
                           (x, ' (skipped)' if any(a[1].k == 'c' for nm, a in skips) else ''))
            ln = head[0][1][2] if len(head[0][1]) > 2 else None
            if ln is not None and isint(ln) and ok:
                ctx.ob('count', short_name, ln.a[1] == len(calls), f.span, 'the struct announces %d components and writes %d' % (ln.a[1], len(calls)))
            if keymap is None: keymap = (used, order)
    ctx.count('serialize paths', n)
    return keymap

def key_variants(ctx, visitors):
    """Field type path -> {key string: variant}"""
    out = {}
    for f in visitors:
        if f.name != 'visit_str': continue
        I, outs = auto(ctx, f)
        if outs is None: continue
        for facts, r, mu in outs:
            for fs, t in alts(r, facts):
                if not is_adt(t, RES, 'Ok') or t.a[3][0].k != 'adt': continue
                v = t.a[3][0]
                for c, p in fs:
                    if p and c.k == 'op' and c.a[0] == 'Eq':
                        s = [x for x in c.a[1] if x.k == 'c' and x.a[0] == 's']
                        if len(s) == 1: out.setdefault(v.a[0], {})[s[0].a[1]] = v.a[1]
    return out

def visit_map(ctx, f, short_name, path, keymap, fieldmaps):
    names = [n for n, t in fields_of(ctx.m, path)]
    types = dict(fields_of(ctx.m, path))
    I, outs = auto(ctx, f)
    if outs is None: ctx.skip('read', short_name, 'budget'); return
    got = {n: set() for n in names}     # field -> loop variables
    for facts, r, mu in outs:
        for fs, t in alts(r, facts):
            if not is_adt(t, RES, 'Ok'): continue
            v = t.a[3][0]
            if not (v.k == 'adt' and v.a[0] == path):
                ctx.skip('read', short_name, 'the value is built by %s' % show(v, 3)); return
            for n in names:
                inst = '%s.%s' % (short_name, n)
                ty = ctx.m.ty(types[n]) if types[n] is not None else None
                optional = ty is not None and ty.adt_path() == OPT
                for fs3, x in deep_alts(project(v, n), fs):
                    if x.k == 'vf' and x.a[0].k == 'loop' and x.a[1] == 'Some': got[n].add(x.a[0])
                    elif x.k == 'loop': got[n].add(x)
                    elif optional and (x is NONE):
                        # absent or null: only when the slot is still empty
                        continue
                    elif x.k == 'vf' and x.a[0].k == 'vf' and x.a[0].a[0].k == 'loop': got[n].add(x.a[0].a[0])
                    elif is_adt(x, OPT, 'Some') and optional:
                        for l in find(x, lambda y: y.k == 'loop'): got[n].add(l)
                    elif find(x, lambda y: y.k == 'call' and y.a[0] == 'missing_field'): continue
                    elif clean(x):
                        ctx.ob('missing', inst, False, f.span, 'a missing component becomes %s instead of an error' % show(x))
                    else: ctx.skip('read', inst, 'value not recognised: %s' % show(x, 4))
    if outs and not any(is_adt(t, RES, 'Ok') for facts, r, mu in outs for fs, t in alts(r, facts)):
        ctx.ob('read', short_name, False, f.span, 'no document is ever accepted')
    def opt_steps(L):
        return I.loopdefs.get(L)
    for n in names:
        inst = '%s.%s' % (short_name, n)
        if not got[n]:
            ctx.skip('read', inst, 'no slot found'); continue
        if len(got[n]) > 1:
            ctx.ob('read', inst, False, f.span, 'component %s is filled from more than one slot' % n); continue
        L = next(iter(got[n]))
        if opt_steps(L) is None: ctx.skip('read', inst, 'slot without loop'); continue
        init, steps = opt_steps(L)
        keys = set()
        for facts, x in steps:
            if x is L: continue
            var = None
            for c, p in facts:
                if p and c.k == 'is' and find(c.a[0], lambda y: y.k == 'call' and y.a[0] == 'next_key') and c.a[1] not in ('Ok', 'Some', 'Continue'):
                    var = (c.a[0], c.a[1])
            for fs, y in alts(x, facts):
                if y is L: continue
                if not is_adt(y, OPT, 'Some'):
                    ctx.ob('malformed', inst, False, f.span, 'the slot of %s is set to %s' % (n, show(y, 5))); continue
                pay = y.a[3][0]
                good = find(pay, lambda z: z.k == 'call' and z.a[0] == 'next_value')
                direct = pay.k == 'vf' and pay.a[1] == 'Ok' and good and pay.a[0] is good[0]
                if not good and clean(pay): ctx.ob('malformed', inst, False, f.span, 'the slot of %s is filled with %s' % (n, show(pay, 5)))
                elif direct: ctx.ob('malformed', inst)
                else:
                    lossy = find(pay, lambda z: z.k == 'call' and z.a[0] == 'default')
                    if lossy or any(c.k == 'is' and c.a[0] in good and not p for c, p in fs):
                        ctx.ob('malformed', inst, False, f.span, 'a malformed %s becomes %s' % (n, show(pay, 5)))
                    else: ctx.skip('malformed', inst, 'value not recognised: %s' % show(pay, 5))
                dup = (is_var(L, 'Some'), False) in fs or (op('Not', is_var(L, 'Some')), True) in fs
                ctx.ob('repeated', inst, dup, f.span, 'a repeated %s overwrites the first one' % n)
            if var is not None: keys.add(var[1])
        # which key (a single-component type has no decision to make)
        allv = {v for fm in fieldmaps.values() for v in fm.values()}
        if not keys and len(allv) == 1: keys = allv
        fm = [m for m in fieldmaps.values() if set(m.values()) & keys]
        if not keys or not fm:
            ctx.skip('read', inst, 'key variant not recognised'); continue
        strs = {k for m in fm for k, v in m.items() if v in keys}
        if isinstance(keymap, tuple) and keymap[0] != 'newtype' and keymap:
            want = {keymap[0].get(n)}
            ctx.ob('read', inst, strs == want, f.span, 'component %s is read from key %s but written under %s' % (n, sorted(strs), sorted(map(str, want))))

def visit_seq(ctx, f, short_name, path, keymap):
    names = [n for n, t in fields_of(ctx.m, path)]
    I, outs = auto(ctx, f)
    if outs is None: return
    order = keymap[1] if keymap and keymap[0] != 'newtype' else names
    for facts, r, mu in outs:
        for fs, t in alts(r, facts):
            if not is_adt(t, RES, 'Ok') or not (t.a[3][0].k == 'adt' and t.a[3][0].a[0] == path): continue
            for n in names:
                x = project(t.a[3][0], n)
                ne = find(x, lambda y: y.k == 'call' and y.a[0] == 'next_element')
                if not ne or n not in order: continue
                # depth: number of earlier elements taken
                top = max(ne, key=lambda y: y.n)
                d, y = 0, top.a[1][0]
                while y.k == 'post' and y.a[0] == 'next_element': d += 1; y = y.a[2][0]
                if y.k != 'arg': continue
                ctx.ob('sequence', '%s.%s' % (short_name, n), d == order.index(n), f.span,
                       'in sequence form component %s is element %d when written and element %d when read' % (n, order.index(n), d))

def check(ctx):
    m = ctx.m
    ctx.rule('write', 'on every path of serialize that succeeds every component (field) of the value is written exactly once, under its own key, and '
             'the value written is that component itself')
    ctx.rule('count', 'the announced number of components is the number written')
    ctx.rule('read', 'on every path of the visitor that succeeds, each component comes from the slot that is filled under the key the component is written under')
    ctx.rule('malformed', 'a slot is only filled with the successfully parsed value of its key (no fallback value)')
    ctx.rule('missing', 'no path that succeeds uses a default for an absent component (an absent optional component is None)')
    ctx.rule('repeated', 'a slot is only filled when it is empty')
    ctx.rule('sequence', 'in sequence form components are read in the order they are written')
    n = 0
    seen = set()
    for f in sorted(m.fns.values(), key=lambda f: f.id):
        if f.kind == 'Closure' or f.name != 'serialize' or not f.trait or not f.trait.endswith('Serialize'): continue
        path = f.self_adt()
        a = m.adt_by_path.get(path)
        if a is None or not a['local'] or a['kind'] != 'struct': continue
        nm = path.split('::')[-1]
        seen.add(nm); n += 1
        km = serialize(ctx, f, nm, path)
        # visitors that produce this type
        des = [g for g in m.fns.values() if g.name == 'deserialize' and g.trait and g.trait.endswith('Deserialize') and g.self_adt() == path and g.kind != 'Closure']
        if not des:
            ctx.violation('read|%s' % nm, f.span, '%s can be written but not read back' % nm); continue
        d = des[0]
        vis = [g for g in m.fns.values() if d.id in g.id and g.id != d.id and g.kind != 'Closure']
        fieldmaps = key_variants(ctx, [g for g in vis if g.name == 'visit_str'])
        found = False
        for g in vis:
            if g.name == 'visit_map': visit_map(ctx, g, nm, path, km, fieldmaps); found = True
            elif g.name == 'visit_seq': visit_seq(ctx, g, nm, path, km)
            elif g.name == 'visit_newtype_struct':
                found = True
                I, outs = auto(ctx, g)
                for facts, r, mu in outs or []:
                    for fs, t in alts(r, facts):
                        if is_adt(t, RES, 'Ok') and t.a[3][0].k == 'adt':
                            x = project(t.a[3][0], fields_of(m, path)[0][0])
                            okv = x.k == 'vf' and x.a[1] == 'Ok' and x.a[0].k == 'call' and x.a[0].a[0] == 'deserialize'
                            if okv or clean(x): ctx.ob('read', '%s.0' % nm, okv, g.span, 'the newtype is read as %s' % show(x, 5))
        if not found: ctx.skip('read', nm, 'no visitor found')
    for x in sorted(SIX - seen):
        ctx.violation('write|%s' % x, '', '%s is no longer serializable' % x)
    ctx.floor('serializable types', n, 6)
    ctx.assumptions += ['serde and serde derive behave as documented', 'a component\'s own type round-trips (nalgebra points, Vec, integers and floats)']
