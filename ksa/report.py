"""Findings, measured coverage, evidence files and exit codes shared by all checks."""
import json
import os
import sys
import time

from .program import AnalysisBroken

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Finding:
    def __init__(self, rule, construct, where, msg, path=()):
        self.rule = rule
        self.construct = construct
        self.where = where
        self.msg = msg
        self.path = list(path)

    @property
    def key(self):
        return '%s|%s' % (self.rule, self.construct)


class Report:
    def __init__(self, pid, prog):
        self.pid = pid
        self.prog = prog
        self.findings = {}
        self.counts = {}
        self.obligations = {}        # rule -> [total, discharged]
        self.functions = set()
        self.samples = []
        self.assumptions = []
        self.rules = {}
        self.notes = []

    def rule(self, name, text):
        self.rules[name] = text
        self.obligations.setdefault(name, [0, 0])

    def ok(self, rule, sample=None, n=1):
        o = self.obligations.setdefault(rule, [0, 0])
        o[0] += n
        o[1] += n
        if sample is not None and len(self.samples) < 12:
            self.samples.append('%s: %s' % (rule, sample))

    def bad(self, rule, construct, where, msg, path=()):
        o = self.obligations.setdefault(rule, [0, 0])
        o[0] += 1
        f = Finding(rule, construct, where, msg, path)
        self.findings.setdefault(f.key, f)

    def check(self, cond, rule, construct, where, msg, path=(), sample=None):
        if cond:
            self.ok(rule, sample or construct)
        else:
            self.bad(rule, construct, where, msg, path)
        return cond

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def seen(self, it):
        """Record what an interpreter run covered."""
        self.functions |= set(it.visited)
        self.count('abstract_statements', len(it.nstmts))
        self.count('call_evaluations', it.ncalls)

    def require(self, cond, msg):
        if not cond:
            raise AnalysisBroken(msg)


def known_findings(pid):
    """{rule|construct: text} of the listed findings of this property."""
    r = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if line.startswith('finding: property=%s ' % pid):
                    rest = line.split(' ', 2)[2]
                    key, _, text = rest.partition(' :: ')
                    r[key.strip()] = text.strip()
    return r


def run_check(pid, mod, prog, tier, seed, replay_note=''):
    t0 = time.time()
    rep = Report(pid, prog)
    ev_dir = os.environ.get('KSA_EVIDENCE') or os.path.join(VERIF, 'evidence')
    os.makedirs(ev_dir, exist_ok=True)
    ev_path = os.path.join(ev_dir, pid + '.json')
    vio_path = os.path.join(ev_dir, pid + '.violations.txt')
    if os.path.exists(vio_path):
        os.unlink(vio_path)
    mod.run(prog, rep, tier)
    known = known_findings(pid)
    new = [f for k, f in sorted(rep.findings.items()) if k not in known]
    old = [f for k, f in sorted(rep.findings.items()) if k in known]
    total = sum(o[0] for o in rep.obligations.values())
    disch = sum(o[1] for o in rep.obligations.values())
    for name, o in sorted(rep.obligations.items()):
        need = getattr(mod, 'MIN', {}).get(name, 1)
        if o[0] < need and not rep.findings:
            raise AnalysisBroken('rule %s was applied %d times, at least %d expected: '
                                 'its anchors are gone' % (name, o[0], need))
    cov = {
        'explanation': mod.EXPLANATION,
        'rules': rep.rules,
        'obligations_per_rule': {k: {'applied': v[0], 'discharged': v[1]}
                                 for k, v in sorted(rep.obligations.items())},
        'obligations': total,
        'discharged': disch,
        'functions_analysed': sorted(rep.functions),
        'n_functions_analysed': len(rep.functions),
        'counts': rep.counts,
        'samples': rep.samples,
        'findings': [f.key for f in rep.findings.values()],
        'source_digest': prog.digest(),
        'notes': rep.notes,
    }
    if getattr(mod, 'LEVEL', 'other') == 'proof':
        cov['checker_cmd'] = 'python3 check.py ' + pid
        cov['trusted_base'] = mod.TRUSTED
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'other'),
          'coverage': cov,
          'assumptions': getattr(mod, 'ASSUMPTIONS', []) + rep.assumptions,
          'wall_s': round(time.time() - t0, 3), 'violations': len(new)}
    with open(ev_path, 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=str)
    for f in old:
        print('KNOWN-FINDING: property=%s %s %s: %s' % (pid, f.key, f.where, f.msg))
    if new:
        with open(vio_path, 'w') as f:
            f.write('Re-run: python3 check.py %s   (analyses the current tree of /repo)\n\n' % pid)
            for x in new:
                f.write('%s\n  rule: %s -- %s\n  at %s\n  %s\n' % (
                    x.key, x.rule, rep.rules.get(x.rule, ''), x.where, x.msg))
                for p in x.path:
                    f.write('    via %s\n' % p)
                f.write('\n')
        for x in new:
            print('  %s %s: %s' % (x.key, x.where, x.msg))
        print('VIOLATION property=%s replay=%s' % (pid, os.path.relpath(vio_path, VERIF)))
        return 1
    print('OK property=%s obligations=%d discharged=%d known=%d functions=%d %.1fs' % (
        pid, total, disch, len(old), len(rep.functions), time.time() - t0))
    return 0
