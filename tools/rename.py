#!/usr/bin/env python3
"""Development aid: renames identifiers in a copy of /repo and runs all (or the given) checks on it; prints everything that is not discharged.
   rename.py 'old=new[,old=new...]' [PROPS]"""
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    ren = [x.split('=') for x in sys.argv[1].split(',')]
    props = sys.argv[2].split(',') if len(sys.argv) > 2 else [__import__('json').loads(l)['id'] for l in open(V + '/properties.jsonl')]
    d = tempfile.mkdtemp(prefix='ren.')
    try:
        shutil.copytree('/repo/distributed_vector_ole', d + '/distributed_vector_ole')
        n = 0
        for r, _, fs in os.walk(d):
            for f in fs:
                if f.endswith(('.h', '.cpp')):
                    p = os.path.join(r, f)
                    s = open(p).read()
                    t = s
                    for a, b in ren:
                        t = re.sub(r'\b%s\b' % re.escape(a), b, t)
                    n += t != s
                    open(p, 'w').write(t)
        print('%d files changed' % n)

        def one(c):
            r = subprocess.run([V + '/check', c], env=dict(os.environ, DVOLE_REPO=d, DVOLE_TRACE='1', DVOLE_EVIDENCE=d + '/ev'), capture_output=True, text=True)
            return c, r.returncode, r.stdout
        with ThreadPoolExecutor(4) as ex:
            for c, rc, out in ex.map(one, props):
                bad = [l for l in out.split('\n') if 'VIOLATED' in l or 'undecided:' in l]
                if rc or bad:
                    print(c, 'rc=%d' % rc, len(bad), 'not discharged;', bad[0][:260] if bad else out[:200])
    finally:
        shutil.rmtree(d)


main()
