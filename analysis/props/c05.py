"""C05 plain, thread-safe data: ownership walk over the field types, unsafe-code query, auto-trait witnesses."""
import os, shutil, subprocess
import extract
from util import *

BAD = [
    (re.compile(r'::(Cell|RefCell|UnsafeCell|SyncUnsafeCell|OnceCell|LazyCell)$'), 'interior mutability'),
    (re.compile(r'::(Mutex|RwLock|OnceLock|LazyLock|Condvar|Once|ReentrantLock)$|::Atomic\w*$'), 'shared mutable state'),
    (re.compile(r'::rc::(Rc|Weak|UniqueRc)$|::sync::(Arc|Weak|UniqueArc)$'), 'shared ownership'),
    (re.compile(r'::(NonNull|Unique|AtomicPtr)$|::pin::Pin$'), 'raw pointer'),
    (re.compile(r'::mem::(ManuallyDrop|MaybeUninit)$'), 'manual drop'),
    (re.compile(r'::(ThreadRng|StdRng|SmallRng)$|::LocalKey$'), 'hidden state'),
    (re.compile(r'::fs::File$|::net::|::io::Std'), 'system handle'),
]
LEAK = re.compile(r'::mem::forget$|::Box::<.*>::(leak|into_raw|from_raw)$|::Vec::<.*>::(leak|from_raw_parts)$|::Rc::<.*>::(into_raw|increment_strong_count)|ManuallyDrop|::intrinsics::|::ptr::(read|write)|transmute')
# transient clip-list node: links to its neighbours are weak, the list itself owns the nodes
WEAK_OK = {'boolean::node::Node': {'prev', 'next', 'neighbor'}}

def check(ctx):
    m = ctx.m
    ctx.rule('plain', 'no field, transitively, of an exported type has a type with interior mutability, shared ownership, a raw pointer, a trait '
             'object or a system handle; the one exception is the weak links of the clip-list node')
    ctx.rule('weak', 'no crate type holds a strong reference-counted pointer through which it can reach itself (a cycle that is never freed)')
    ctx.rule('unsafe', 'the crate contains no unsafe block, function or impl, and leaks nothing on purpose')
    ctx.rule('witness', 'the geometry types at f32 and f64 are Send, Sync, Unpin, UnwindSafe, RefUnwindSafe, Clone and \'static: decided by the compiler on witness/lib.rs')
    # --- type walk
    def walk(i, path, seen, hit, strong):
        """visit type i; report forbidden parts through hit(kind, path)"""
        t = m.ty(i)
        if i in seen: return
        seen.add(i)
        if t.k == 'ptr': hit('raw pointer', path, t); return
        if t.k in ('dyn', 'dynamic'): hit('trait object', path, t); return
        if t.k == 'adt':
            p = t.adt_path()
            for rx, kind in BAD:
                if rx.search(p): hit(kind, path, t); break
        d = t.d
        for j in [x for x in d.get('a', []) if isinstance(x, int)] + ([d['t']] if 't' in d else []):
            walk(j, path, seen, hit, strong)
        if t.k == 'adt' and t.adt()['local'] and t.adt()['path'] in WEAK_OK: return
    n = nf = 0
    for a in m.adts:
        if not a['local'] or not a['exported']: continue
        n += 1
        for v in a['v']:
            for fd in v['f']:
                if fd['t'] is None: continue
                nf += 1
                inst = '%s.%s' % (short(a['path']), fd['n'] if a['kind'] == 'struct' else v['n'] + '.' + fd['n'])
                hits = []
                walk(fd['t'], inst, set(), lambda k, p, t: hits.append((k, t.s)), False)
                if a['path'] in WEAK_OK and fd['n'] in WEAK_OK[a['path']]:
                    strong = [h for h in hits if re.search(r'::rc::Rc<|::sync::Arc<', h[1]) and not h[1].startswith(('std::rc::Weak', 'std::sync::Weak'))]
                    ctx.ob('plain', inst, not strong, a['path'], 'the link is a strong pointer: %s' % strong)
                    continue
                ctx.ob('plain', inst, not hits, a['path'], '; '.join('%s (%s)' % h for h in hits))
    ctx.floor('exported types', n, 36); ctx.count('fields of exported types', nf)
    # --- strong cycles
    strong = {}
    for a in m.adts:
        if not a['local']: continue
        tg = set()
        def dig(i, under, seen):
            if (i, under) in seen: return
            seen.add((i, under))
            t = m.ty(i)
            u = under
            if t.k == 'adt':
                p = t.adt_path()
                if re.search(r'::rc::Weak$|::sync::Weak$', p): return
                if re.search(r'::rc::Rc$|::sync::Arc$', p): u = True
                if t.adt()['local'] : tg.add((p, u))
            for j in [x for x in t.d.get('a', []) if isinstance(x, int)] + ([t.d['t']] if 't' in t.d else []):
                dig(j, u, seen)
        for v in a['v']:
            for fd in v['f']:
                if fd['t'] is not None: dig(fd['t'], False, set())
        strong[a['path']] = tg
    for a in sorted(strong):
        # reach a again with at least one strong edge
        st, seen, cyc = [(a, False)], set(), False
        while st:
            x, u = st.pop()
            for y, s in strong.get(x, ()):
                k = (y, u or s)
                if y == a and k[1]: cyc = True
                if k not in seen:
                    seen.add(k); st.append(k)
        ctx.ob('weak', short(a), not cyc, a, 'the type can own itself through a strong reference-counted pointer')
    # --- unsafe
    for sp, owner in m.raw['unsafe_blocks']:
        ctx.ob('unsafe', 'unsafe block in ' + short(str(owner)), False, str(sp), 'unsafe code')
    for f in m.fns.values():
        if f.kind == 'Closure': continue
        if f.raw.get('unsafe'): ctx.ob('unsafe', 'unsafe fn ' + short(f.id), False, f.span, 'unsafe function')
    for im in m.raw['impls']:
        if im.get('unsafe') and im['trait'] != 'std::clone::TrivialClone': ctx.ob('unsafe', 'unsafe impl %s for %s' % (im['trait'], m.ty(im['self']).s), False, im['span'], 'unsafe impl')
    nc = 0
    for f in m.fns.values():
        for b, t in f.calls():
            nc += 1
            path, name, loc, info = callee(t)
            if LEAK.search(path) and not (info.get('crate') or '').startswith('curvo'):
                ctx.ob('unsafe', 'leak or raw access %s in %s' % (short(path), short(f.id)), False, f.blocks[b]['sp'], path)
    ctx.ob('unsafe', 'no unsafe block in %d functions and closures' % len(m.fns)) if not m.raw['unsafe_blocks'] else None
    ctx.count('call sites scanned', nc)
    # --- witnesses
    w = os.path.join(extract.CACHE, 'witness')
    os.makedirs(os.path.join(w, 'src'), exist_ok=True)
    src = open(os.path.join(extract.ROOT, 'witness', 'lib.rs')).read()
    open(os.path.join(w, 'src', 'lib.rs'), 'w').write(src)
    open(os.path.join(w, 'Cargo.toml'), 'w').write(
        '[package]\nname = "witness"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[dependencies]\n'
        'curvo = { path = "%s", features = ["serde", "log"] }\nnalgebra = "*"\n' % extract.REPO)
    lock = os.path.join(extract.REPO, 'Cargo.lock')
    if os.path.exists(lock): shutil.copy(lock, os.path.join(w, 'Cargo.lock'))
    e = extract._env()
    e['CARGO_TARGET_DIR'] = os.path.join(extract.CACHE, 'target-witness')
    e['CARGO_INCREMENTAL'] = '0'
    r = subprocess.run(['cargo', extract.TOOLCHAIN, 'check', '--offline', '--manifest-path', os.path.join(w, 'Cargo.toml'), '--message-format', 'short'],
                       env=e, capture_output=True, text=True, cwd=w)
    lines = [l for l in r.stderr.splitlines() if 'src/lib.rs' in l and 'error' in l]
    npl = len(re.findall(r'plain::<', src)) * 2
    if r.returncode == 0:
        ctx.ob('witness', '%d types are Send + Sync + Unpin + UnwindSafe + RefUnwindSafe + Clone + \'static' % npl)
        ctx.count('witness types', npl)
    elif lines:
        seen = set()
        for l in lines:
            msg = re.sub(r'^\S*src/lib.rs:\d+:\d+: ', '', l)
            if msg in seen: continue
            seen.add(msg)
            ctx.ob('witness', msg[:160], False, l.split(': ')[0], l)
    else:
        raise RuntimeError('witness crate did not build:\n' + r.stderr[-3000:])
