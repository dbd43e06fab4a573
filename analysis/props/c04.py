"""C04 purity: effect analysis over the call graph (resolved callees, CHA for generic trait calls)."""
from util import *

# callee path patterns (of the resolved path) that are effects
RAND = re.compile(r'^<?(?:[a-z:]*\b)?rand(?:_core|_chacha|_distr)?::|\brand::|getrandom::|RandomState::new|fastrand')
EFFECTS = [
    ('clock', re.compile(r'std::time::(Instant|SystemTime)|\binstant::|chrono::')),
    ('environment', re.compile(r'std::env::')),
    ('filesystem', re.compile(r'std::fs::|std::os::|std::path::Path::(exists|is_file|is_dir|canonicalize|metadata|read_)')),
    ('network', re.compile(r'std::net::')),
    ('process', re.compile(r'std::process::')),
    ('thread', re.compile(r'std::thread::(?!LocalKey)')),
    ('thread-local state', re.compile(r'LocalKey|thread_local|thread::local')),
    ('console or stream', re.compile(r'std::io::')),
    ('shared mutable state', re.compile(r'std::sync::(?!Arc\b)|core::sync::|OnceCell|LazyCell|OnceLock|LazyLock|atomic::')),
    ('hash-order iteration', re.compile(r'(HashMap|HashSet)<.*(Iterator|IntoIterator|Extend)|hash_map::.*::(next|into_iter)|hash_set::.*::next|'
                                        r'collections::(hash::)?(map::|set::)?Hash(Map|Set)::<[^>]*>::(iter|iter_mut|keys|values|values_mut|into_keys|into_values|drain|retain|extract_if|union|intersection|difference|symmetric_difference)$|'
                                        r'std::collections::hash_(map|set)::')),
    ('address as value', re.compile(r'\*(const|mut) T>::(addr|expose_provenance)|pointer::(const|mut)_ptr.*::addr')),
    ('raw allocation or leak', re.compile(r'std::alloc::(alloc|dealloc|realloc)|core::arch::|::asm')),
]
# reading a hash map by key is fine; these resolved paths match the HashMap pattern but are keyed access or building
KEYED = re.compile(r'as std::ops::Index|FromIterator|Clone|Default|PartialEq|Debug')

def effect_of(path, info, m):
    if RAND.search(path): return 'randomness'
    tp = info.get('path', path)
    for nm, rx in EFFECTS:
        if rx.search(path) and not (nm == 'hash-order iteration' and KEYED.search(path)):
            return nm
    # iterating any iterator type of a hash container (e.g. `for x in &map`): look at the Self type of the trait call
    if info.get('trait', '').endswith(('IntoIterator', 'iter::Iterator')) and info.get('a'):
        a0 = info['a'][0]
        if isinstance(a0, int):
            t = m.ty(a0).peel()
            p = t.adt_path() or ''
            if re.search(r'Hash(Map|Set)$|hash_map::|hash_set::', p): return 'hash-order iteration'
    return None

def check(ctx):
    m = ctx.m
    ctx.rule('effect', 'no exported function reaches (over resolved calls; generic trait calls go to every impl) a callee that draws random '
             'numbers, reads a clock/environment/file/network/process, prints, spawns threads, touches thread-local or shared mutable '
             'state, or iterates a hash container; random draws are allowed only below the two permitted anchors')
    ctx.rule('static', 'no static item is mutable or has interior mutability')
    ctx.rule('address', 'no pointer is turned into an integer')
    cg = CallGraph(m)
    a1 = m.method('NurbsCurve', 'tessellate', 'Tessellation')
    a2 = m.method('CurveBoundingBoxTree', 'try_divide', 'BoundingBoxTree')
    anchors = {ctx.one(a1, 'NurbsCurve::tessellate').id, ctx.one(a2, 'CurveBoundingBoxTree::try_divide').id}
    direct = {}
    for f in m.fns.values():
        for path, b, info in cg.ext[f.id]:
            e = effect_of(path, info, m)
            if e: direct.setdefault(f.id, []).append((e, path, f.blocks[b]['sp']))
        for b in f.reachable_blocks():
            for s in f.blocks[b]['s']:
                if s[0] == '=' and s[2][0] == 'cast' and 'Expose' in s[2][1]:
                    direct.setdefault(f.id, []).append(('address as value', 'cast', s[3]))
    roots = [f.id for f in m.fns.values() if f.exported and f.kind != 'Closure' and is_src(f)]
    ctx.floor('exported functions', len(roots), 330)
    ncalls = sum(len(v) for v in cg.ext.values()); ctx.count('external call sites', ncalls)
    ctx.count('call graph edges', sum(len(v) for v in cg.edges.values()))
    # 1. randomness only below the anchors
    rnd = {f for f, es in direct.items() if any(e == 'randomness' for e, _, _ in es)}
    seen_cut = cg.reach(roots, cut=anchors)
    for f in sorted(rnd):
        if f in seen_cut:
            e = next(x for x in direct[f] if x[0] == 'randomness')
            ctx.ob('effect', 'randomness in %s' % short(f), False, e[2], '%s is reached without passing the permitted anchors: %s' % (e[1], cg.chain(seen_cut, f)))
        else:
            ctx.ob('effect', 'randomness in %s is confined to the anchors' % short(f))
    # the two anchors are positive examples: the matcher must see their draws
    ctx.floor('random draws below the permitted anchors (positive control)', sum(1 for f in rnd if f in cg.reach(anchors)), 2)
    # 2. all other effects nowhere
    seen = cg.reach(roots)
    for f in sorted(direct):
        for e, path, sp in direct[f]:
            if e == 'randomness': continue
            if f in seen:
                ctx.ob('effect', '%s in %s via %s' % (e, short(f), short(path)), False, sp, 'reached: ' + cg.chain(seen, f))
    for f in sorted(seen):
        ctx.ob('effect', 'pure: ' + short(f)) if f not in direct else None
    for s in m.raw['statics']:
        ctx.ob('static', s['path'], not s['mut'] and s['freeze'], s['path'], 'static is mutable or has interior mutability')
    ctx.count('statics', len(m.raw['statics']))
    ctx.assumptions += ['external crates (nalgebra, argmin, spade, robust, gauss-quad, itertools) are deterministic; argmin reads a clock only for statistics',
                        'features serde,log; src/ only (examples are not part of the library)']
