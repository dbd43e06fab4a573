#!/usr/bin/env python3
"""Applies each mutant / behaviour-preserving edit to a scratch copy and runs the named checks on it.
usage: run.py [-j N] [-k substring] [property...]"""
import os, queue, subprocess, sys, threading, glob, runpy
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.environ.get('SCRATCH', '/tmp/selftest')
lock = threading.Lock()

def one(w, m):
    pid, name, expect, edits = m
    d = S if w == 0 else '%s%d' % (S, w)
    os.makedirs(d, exist_ok=True)
    repo = os.path.join(d, 'repo')
    os.makedirs(repo, exist_ok=True)
    env = dict(os.environ, VERIF_REPO=repo, VERIF_CACHE=os.path.join(d, 'cache'), VERIF_EVIDENCE=os.path.join(d, 'evidence'))
    subprocess.run(['rsync', '-a', '--delete', '--exclude', 'target', '--exclude', '.git', os.environ.get('SELFTEST_SRC', '/repo') + '/', repo + '/'], check=True)
    for file, old, new in edits:
        p = os.path.join(repo, file)
        s = open(p).read()
        n = s.count(old)
        if n != 1: return False, 'BADEDIT %s %s %s: %d matches of %r' % (pid, name, file, n, old[:60])
        open(p, 'w').write(s.replace(old, new))
    r = subprocess.run([os.path.join(ROOT, 'check.sh'), pid], env=env, capture_output=True, text=True)
    got = {0: 'quiet', 1: 'caught'}.get(r.returncode, 'ERROR%d' % r.returncode)
    ok = got == expect
    keys = [l.strip()[5:] for l in r.stdout.splitlines() if l.startswith('  key:')]
    t = '%s %s %-40s %s %s' % ('ok  ' if ok else 'FAIL', pid, name, got, '; '.join(keys)[:200])
    if got.startswith('ERROR'): t += r.stdout[-1500:] + r.stderr[-1500:]
    return ok, t

def main():
    args = sys.argv[1:]
    k, j = None, 4
    while args[:1] and args[0] in ('-k', '-j'):
        if args[0] == '-k': k = args[1]
        else: j = int(args[1])
        args = args[2:]
    ms = [x for g in sorted(glob.glob(os.path.join(ROOT, 'selftest', 'mutants*.py'))) for x in runpy.run_path(g)['MUTANTS']]
    q = queue.Queue()
    for m in ms:
        if (not args or m[0] in args) and (not k or k in m[1]): q.put(m)
    bad = []
    def work(w):
        while True:
            try: m = q.get_nowait()
            except queue.Empty: return
            ok, t = one(w, m)
            with lock:
                print(t); sys.stdout.flush()
                if not ok: bad.append(m)
    ts = [threading.Thread(target=work, args=(w,)) for w in range(j)]
    for t in ts: t.start()
    for t in ts: t.join()
    return 1 if bad else 0
sys.exit(main())
