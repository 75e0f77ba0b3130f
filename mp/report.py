"""Common driver of the checks: findings, known findings, evidence, exit status."""
import os, sys, json, time, importlib, traceback, re
from .load import VERIF, REPO, AnalysisError
from . import load

class Finding:
    """one violated obligation. `key` identifies the construct independently of line numbers."""
    def __init__(self, key, loc, msg, detail=None):
        self.key = key; self.loc = loc; self.msg = msg; self.detail = detail or []

class Result:
    def __init__(self, rule):
        self.rule = rule
        self.findings = {}
        self.obligations = 0
        self.samples = []
        self.counts = {}
        self.assumptions = []
        self.minimum = {}          # name -> confirmed lower bound (vacuity guard)
        self.functions = set()
        self._seen = set()
    def ob(self, ident, sample=None):
        """count one obligation (deduplicated by identity)"""
        if ident in self._seen: return
        self._seen.add(ident)
        self.obligations += 1
        if sample and len(self.samples) < 12: self.samples.append(sample)
    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n
    def need(self, name, n):
        """the rule matched at least n constructs of this kind when confirmed by hand"""
        self.minimum[name] = n
    def violation(self, key, loc, msg, detail=None):
        if key not in self.findings: self.findings[key] = Finding(key, loc, msg, detail)

def known(pid):
    p = os.path.join(VERIF, 'known-findings.json')
    if not os.path.exists(p): return {}
    with open(p) as f: d = json.load(f)
    return {e['key']: e for e in d.get('findings', []) if e['property'] == pid and e.get('status') == 'open'}

def main(pid, runner, level, trusted, technique):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    try: seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError: seed = 1
    from .prog import Program
    try:
        prog = Program()
        if prog.tu_errors:
            raise AnalysisError('translation units with errors: %s' % prog.tu_errors)
        res = runner(prog, tier)
        for k, n in res.minimum.items():
            if res.counts.get(k, 0) < n and not res.findings:
                raise AnalysisError('rule lost its subject: %s = %d, expected at least %d' % (k, res.counts.get(k, 0), n))
        if res.obligations == 0: raise AnalysisError('no obligations')
    except AnalysisError as e:
        print('ANALYSIS-ERROR property=%s %s' % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-ERROR property=%s internal' % pid)
        return 2
    kn = known(pid)
    new = []; old = []
    for k, f in sorted(res.findings.items()):
        (old if k in kn else new).append(f)
    evdir = os.environ.get('MP_EVIDENCE') or os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    cov = {
        'rule': res.rule,
        'obligations': res.obligations,
        'discharged': res.obligations - len(res.findings),
        'checker_cmd': 'python3 check.py %s' % pid,
        'trusted_base': trusted,
        'translation_units': len(prog.tus),
        'functions_in_scope': len(res.functions) if res.functions else len(prog.fns),
        'counts': res.counts,
        'samples': res.samples,
        'explanation': 'Static analysis (%s) of the clang-resolved program of %s; %d obligations enumerated and decided on this run, %d violated (%d listed as known findings).'
            % (technique, REPO, res.obligations, len(res.findings), len(old)),
        'violations_found': ['%s %s' % (f.loc, f.msg) for f in new],
        'known_findings': [f.key for f in old],
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': res.assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    with open(os.path.join(evdir, pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    for f in old:
        print('KNOWN-FINDING: property=%s %s: %s' % (pid, f.loc, f.msg))
    if not new:
        print('OK property=%s obligations=%d functions=%d counts=%s (%.1fs)' % (pid, res.obligations, cov['functions_in_scope'], json.dumps(res.counts), time.time() - t0))
        return 0
    rdir = os.path.join(evdir, 'replay'); os.makedirs(rdir, exist_ok=True)
    for n, f in enumerate(new):
        p = os.path.join(rdir, '%s-%d.txt' % (pid, n + 1))
        with open(p, 'w') as o:
            o.write('property: %s\nrule: %s\nconstruct: %s\nat: %s\nviolation: %s\n' % (pid, res.rule, f.key, f.loc, f.msg))
            for d in f.detail: o.write('  %s\n' % d)
        print('%s: %s [%s]' % (f.loc, f.msg, f.key))
        print('VIOLATION property=%s replay=%s' % (pid, p))
    return 1
