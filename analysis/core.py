"""Check context: obligations, violations, known findings, evidence."""
import json, os, sys, time, traceback
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class Anchor(Exception):
    """an anchor the rule needs is gone: fail closed"""

class Ctx:
    def __init__(self, pid, mir, info):
        self.pid, self.m, self.info = pid, mir, info
        self.viol = {}            # key -> (site, message)
        self.obligations = []     # (rule, instance, status)
        self.counts = {}
        self.notes = []
        self.assumptions = []
        self.rules = {}
    def rule(self, name, text):
        self.rules[name] = text
    def ob(self, rule, instance, ok=True, site='', msg=''):
        """one obligation: decided ok or violated"""
        self.obligations.append((rule, instance, 'ok' if ok else 'violated'))
        if not ok:
            self.violation('%s|%s' % (rule, instance), site, msg)
        return ok
    def skip(self, rule, instance, why):
        self.obligations.append((rule, instance, 'undecided: ' + why))
    def violation(self, key, site, msg):
        self.viol.setdefault(key, (site, msg))
    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n
    def floor(self, what, got, least):
        """instance floor: fewer instances than confirmed by hand means the rule lost its subject"""
        self.counts[what] = got
        if got < least:
            self.violation('floor|' + what, '', 'only %d instance(s) of "%s" found, at least %d expected: the rule lost its subject' % (got, what, least))
    def one(self, fns, what):
        if len(fns) != 1:
            raise Anchor('expected exactly one %s, found %d' % (what, len(fns)))
        return fns[0]
    def anchor_missing(self, what):
        self.violation('anchor|' + what, '', 'anchor not found: ' + what)

def known_findings(pid):
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p): return {}
    d = json.load(open(p))
    return {e['key']: e['what'] for e in d.get('known', []) if e['property'] == pid}

def finish(ctx, t0):
    pid = ctx.pid
    known = known_findings(pid)
    ev_dir = os.environ.get('VERIF_EVIDENCE', os.path.join(ROOT, 'evidence'))
    os.makedirs(ev_dir, exist_ok=True)
    new = {k: v for k, v in ctx.viol.items() if k not in known}
    old = {k: v for k, v in ctx.viol.items() if k in known}
    by_rule = {}
    for r, i, s in ctx.obligations:
        d = by_rule.setdefault(r, {'obligations': 0, 'ok': 0, 'violated': 0, 'undecided': 0})
        d['obligations'] += 1
        d[s.split(':')[0]] += 1
    samples = []
    seen = {}
    for r, i, s in ctx.obligations:
        if seen.get(r, 0) < 6:
            seen[r] = seen.get(r, 0) + 1
            samples.append('%s | %s | %s' % (r, i, s))
    und = ['%s | %s | %s' % o for o in ctx.obligations if o[2].startswith('undecided')]
    cov = {
        'explanation': 'Static analysis of the resolved MIR of /repo\'s current tree. Each obligation is one rule instance '
                       '(function, call site, field or path) decided by the rule text below.',
        'rules': ctx.rules,
        'obligations': len(ctx.obligations),
        'discharged': sum(1 for o in ctx.obligations if o[2] == 'ok'),
        'undecided': und[:40],
        'per_rule': by_rule,
        'analysed': dict(ctx.info, **ctx.counts),
        'samples': samples[:60],
        'known_findings_reproduced': sorted(old),
    }
    ev = {'property': pid, 'tier': os.environ.get('VERIF_TIER', 'quick'), 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
          'level': 'other', 'coverage': cov, 'assumptions': ctx.assumptions, 'wall_s': round(time.time() - t0, 2),
          'violations': len(new)}
    with open(os.path.join(ev_dir, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k, (site, msg) in sorted(old.items()):
        print('KNOWN-FINDING: property=%s %s [%s]' % (pid, known[k], k))
    if not new:
        print('%s: %d obligations, %d discharged, %d undecided; %s' % (pid, len(ctx.obligations), cov['discharged'], len(und),
              ', '.join('%s=%s' % kv for kv in sorted(ctx.counts.items()))))
        return 0
    rp = os.path.join(ev_dir, pid + '.violation.txt')
    with open(rp, 'w') as f:
        for k, (site, msg) in sorted(new.items()):
            f.write('property %s\nkey: %s\nat: %s\n%s\n\n' % (pid, k, site, msg))
    for k, (site, msg) in sorted(new.items()):
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        print('  key: %s\n  at: %s\n  %s' % (k, site, msg))
    return 1
