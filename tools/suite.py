#!/usr/bin/env python3
"""Development aid: applies the edits of a suite file to copies of /repo and runs checks on them.
   Format: '@@ NAME PROPS EXPECT' (EXPECT: quiet | caught), then 'file\\nold\\n====\\nnew' blocks separated by '----' lines."""
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(case):
    name, props, expect, body = case
    d = tempfile.mkdtemp(prefix='suite.')
    try:
        shutil.copytree('/repo/distributed_vector_ole', d + '/distributed_vector_ole')
        for part in re.split(r'\n----\n', body.strip('\n')):
            f, b = part.strip('\n').split('\n', 1)
            old, new = b.split('\n====\n') if '\n====\n' in b else (b[:-5], '')
            p = '%s/distributed_vector_ole/%s' % (d, f.strip())
            s = open(p).read()
            if s.count(old) < 1:
                return 'BAD  %s: not found: %s' % (name, old[:80])
            open(p, 'w').write(s.replace(old, new, 1))
        out, hit, und = [], False, 0
        for pr in props.split(','):
            e = dict(os.environ, DVOLE_REPO=d)
            e.pop('DVOLE_AST', None)
            r = subprocess.run(['python3', V + '/check', pr], env=e, capture_output=True, text=True)
            t = r.stdout + r.stderr
            hit |= r.returncode == 1
            u = re.findall(r'undecided: (.*)', t)
            und += len(u)
            if r.returncode not in (0, 1):
                out.append('   %s rc=%d %s' % (pr, r.returncode, t[-300:]))
            for x in re.findall(r'VIOLATED: (.*)', t)[:2]:
                out.append('   %s violated: %s' % (pr, x[:150]))
            for x in u[:3]:
                out.append('   %s undecided: %s' % (pr, x[:220]))
        good = hit == (expect == 'caught')
        return '\n'.join(['%s %s (%s) expected %s%s' % ('ok  ' if good else 'MISS', name, props, expect, ', %d undecided' % und if und else '')] +
                         ([] if good and not und and not os.environ.get('V') else out))
    finally:
        shutil.rmtree(d)


cases = []
only = [a for a in sys.argv[1:] if not os.path.exists(a)]
for fn in sys.argv[1:]:
    if not os.path.exists(fn):
        continue
    for blk in re.split(r'^@@ ', open(fn).read(), flags=re.M)[1:]:
        h, b = blk.split('\n', 1)
        n, p, x = h.split()
        if not only or any(o in n for o in only):
            cases.append((n, p, x, b))
with ThreadPoolExecutor(int(os.environ.get("J", "6"))) as ex:
    for r in ex.map(run, cases):
        print(r, flush=True)
