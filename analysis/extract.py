"""Build the driver and dump curvo's MIR from /repo's current working tree."""
import hashlib, json, os, shutil, subprocess, sys, tempfile, fcntl
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.environ.get('VERIF_CACHE', os.path.join(ROOT, '.cache'))
TOOLCHAIN = '+nightly'

class ExtractError(Exception):
    pass

def _env():
    e = dict(os.environ)
    for k in ('RUSTUP_TOOLCHAIN', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'CARGO_TARGET_DIR', 'RUSTFLAGS',
              'CARGO_ENCODED_RUSTFLAGS', 'RUSTC'):
        e.pop(k, None)
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin')
    e.setdefault('HOME', '/root')
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    return e

def sysroot():
    return subprocess.check_output(['rustc', TOOLCHAIN, '--print', 'sysroot'], env=_env(), text=True).strip()

def build_driver():
    src = os.path.join(ROOT, 'driver', 'main.rs')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(CACHE, 'vmir-' + h)
    if os.path.exists(out):
        return out
    tmp = out + '.tmp%d' % os.getpid()
    r = subprocess.run(['rustc', TOOLCHAIN, '--edition', '2021', '-O', src, '-o', tmp], env=_env(),
                       capture_output=True, text=True, cwd=CACHE)
    if r.returncode != 0:
        raise ExtractError('driver build failed:\n' + r.stderr[-4000:])
    os.rename(tmp, out)
    return out

def source_hash(driver):
    h = hashlib.sha256()
    h.update(os.path.basename(driver).encode())
    for base in ('src', 'Cargo.toml', 'Cargo.lock'):
        p = os.path.join(REPO, base)
        if os.path.isfile(p):
            h.update(base.encode()); h.update(open(p, 'rb').read())
        else:
            for d, ds, fs in sorted(os.walk(p)):
                ds.sort()
                for f in sorted(fs):
                    q = os.path.join(d, f)
                    h.update(os.path.relpath(q, REPO).encode()); h.update(b'\0')
                    h.update(open(q, 'rb').read())
    return h.hexdigest()[:24]

def extract():
    """returns (path of the json dump, seconds spent, 'fresh'|'cached')"""
    import time
    t0 = time.time()
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = build_driver()
        h = source_hash(drv)
        out = os.path.join(CACHE, 'mir-%s.json' % h)
        if os.path.exists(out):
            return out, time.time() - t0, 'cached'
        target = os.path.join(CACHE, 'target')
        # cargo would skip the wrapper on a warm target directory: drop curvo's own units
        for base in ('.fingerprint', 'build', 'deps'):
            fp = os.path.join(target, 'debug', base)
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d == 'curvo' or d.startswith(('curvo-', 'libcurvo-')):
                        q = os.path.join(fp, d)
                        shutil.rmtree(q) if os.path.isdir(q) else os.remove(q)
        tmp = out + '.tmp%d' % os.getpid()
        e = _env()
        sr = sysroot()
        e['LD_LIBRARY_PATH'] = sr + '/lib'
        e['RUSTC_WORKSPACE_WRAPPER'] = drv
        e['CARGO_TARGET_DIR'] = target
        e['CARGO_INCREMENTAL'] = '0'
        e['VMIR_CRATE'] = 'curvo'
        e['VMIR_OUT'] = tmp
        r = subprocess.run(['cargo', TOOLCHAIN, 'check', '--offline', '--lib', '--features', 'serde,log',
                            '--manifest-path', os.path.join(REPO, 'Cargo.toml')],
                           env=e, capture_output=True, text=True, cwd=REPO)
        if r.returncode != 0 or not os.path.exists(tmp):
            i = r.stderr.find('error'); raise ExtractError('cargo check with the driver failed (rc %d):\n%s' % (r.returncode, r.stderr[max(0, i - 500):i + 3500]))
        os.rename(tmp, out)
        # keep only a few dumps
        ds = sorted((os.path.getmtime(os.path.join(CACHE, f)), f) for f in os.listdir(CACHE)
                    if f.startswith('mir-') and f.endswith('.json'))
        for _, f in ds[:-6]:
            os.remove(os.path.join(CACHE, f))
        return out, time.time() - t0, 'fresh'

if __name__ == '__main__':
    print(extract())
