"""Shared plumbing of the checks: obligations, verdicts, evidence, compilation."""
import hashlib
import json
import multiprocessing
import os
import signal
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DVOLE_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CLANG = '/usr/bin/clang++-18' if os.path.exists('/usr/bin/clang++-18') else 'clang++-18'
FLAGS = ['-std=c++17', '-Wno-everything', '-I' + REPO, '-I' + VERIF + '/stubs/include',
         '-isystem', '/usr/include/android', '-isystem', '/usr/include/eigen3']


class Broken(Exception):
    """the analysis itself cannot work (anchors gone, does not compile)"""


class Report:
    """Collects obligations. status: ok | fail | undecided"""

    def __init__(self, prop, rule):
        self.prop = prop
        self.rule = rule
        self.t0 = time.time()
        self.obl = []
        self.analysed = {}
        self.assumptions = []
        self.extra = {}
        self.level = 'other'

    def add(self, name, status, detail='', where=''):
        self.obl.append({'obligation': name, 'status': status, 'detail': detail, 'where': where})
        return status == 'ok'

    def ok(self, name, detail='', where=''):
        return self.add(name, 'ok', detail, where)

    def fail(self, name, detail='', where=''):
        return self.add(name, 'fail', detail, where)

    def undecided(self, name, detail='', where=''):
        return self.add(name, 'undecided', detail, where)

    def check(self, name, cond, detail='', where=''):
        """cond: True/False/None(undecided)"""
        return self.add(name, 'ok' if cond else ('undecided' if cond is None else 'fail'), detail if not cond else '', where)

    def seen(self, kind, what):
        self.analysed.setdefault(kind, set()).add(what)

    def finish(self):
        known = load_known(self.prop)
        fails = [o for o in self.obl if o['status'] == 'fail']
        und = [o for o in self.obl if o['status'] == 'undecided']
        okc = [o for o in self.obl if o['status'] == 'ok']
        new = []
        for f in fails:
            k = next((k for k in known if k['match'] == f['obligation']), None)
            if k:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
            else:
                new.append(f)
        if not self.obl:
            raise Broken('no obligation was generated')
        cov = {
            'explanation': self.rule,
            'rule': self.rule,
            'obligations': len(self.obl),
            'discharged': len(okc),
            'undecided': len(und),
            'violated': len(fails),
            'evaluations': len(self.obl),
            'distinct_nontrivial': len(set(o['obligation'] for o in self.obl)),
            'samples': [o['obligation'] for o in self.obl[:8]],
            'analysed': {k: sorted(v) if len(v) < 200 else len(v) for k, v in self.analysed.items()},
            'analysed_counts': {k: len(v) for k, v in self.analysed.items()},
            'undecided_obligations': und[:40],
            'violated_obligations': fails[:40],
            'checker_cmd': ' '.join(['python3', 'check'] + sys.argv[1:]),
            'trusted_base': ['clang 18 front end', '/verif/stubs (declared interfaces of mpc_utils and emp-ot)',
                             '/verif/kernel and /verif/astp analysers'],
        }
        cov.update(self.extra)
        tier = os.environ.get('VERIF_TIER', 'quick')
        if tier not in ('quick', 'thorough'):
            tier = 'quick'
        ev = {'property': self.prop, 'tier': tier,
              'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': self.level,
              'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 3), 'violations': len(new)}
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        print('%s: %d obligations, %d discharged, %d undecided, %d violated (%.1fs)' % (
            self.prop, len(self.obl), len(okc), len(und), len(fails), time.time() - self.t0))
        for o in und[:10]:
            print('  undecided: %s -- %s %s' % (o['obligation'], o['detail'][:300], o['where']))
        if new:
            rp = os.path.join(d, self.prop + '.violation.txt')
            with open(rp, 'w') as f:
                for o in new:
                    f.write('%s\n  where: %s\n  %s\n\n' % (o['obligation'], o['where'], o['detail']))
            for o in new[:12]:
                print('  VIOLATED: %s\n    where: %s\n    %s' % (o['obligation'], o['where'], o['detail'][:900]))
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            return 1
        return 0


def load_known(prop):
    p = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if not ln or not ln.startswith('{'):
                continue
            d = json.loads(ln)
            if d.get('status') == 'known' and d['property'] == prop:
                out.append(d)
    return out


def emit_ir(driver, defs=(), opt='-O2', extra=()):
    """Compile a driver against /repo's current sources to textual LLVM IR (never executed)."""
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, 'kernel/drivers', driver)
    key = hashlib.sha1((driver + ' '.join(defs) + opt + ' '.join(extra)).encode()).hexdigest()[:10]
    out = os.path.join(BUILD, '%s.%s.%d.ll' % (driver, key, os.getpid()))
    cmd = [CLANG] + FLAGS + list(defs) + [opt, '-fignore-exceptions', '-fno-vectorize', '-fno-slp-vectorize',
                                         '-fno-threadsafe-statics', '-DNDEBUG'] + list(extra) + \
        ['-S', '-emit-llvm', src, '-o', out]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise Broken('driver %s does not compile:\n%s' % (driver, r.stdout[-3000:]))
    txt = open(out).read()
    os.unlink(out)
    return txt


class OutOfTime(BaseException):
    """the analysis budget ran out: what is left stays undecided"""


START = time.monotonic()
TOTAL = float(os.environ.get('DVOLE_BUDGET', '600'))     # seconds for one check; the callers give it 900
GROUP = TOTAL / 3                                        # seconds for one group of obligations
_depth = [0]


def _alarm(*_):
    for p in multiprocessing.active_children():
        p.kill()
    raise OutOfTime()


def left():
    return max(TOTAL - (time.monotonic() - START), 0.01)


def watch():
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, left(), 5)


def unwatch():
    signal.setitimer(signal.ITIMER_REAL, 0)


def limited(f):
    """f() within the time of one group and of the whole check; raises OutOfTime"""
    if _depth[0] or threading.current_thread() is not threading.main_thread() or multiprocessing.parent_process() is not None:
        return f()
    _depth[0] += 1
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, min(GROUP, left()), 5)
    try:
        return f()
    finally:
        signal.setitimer(signal.ITIMER_REAL, left(), 5)
        _depth[0] -= 1
