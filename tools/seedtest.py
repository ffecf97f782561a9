#!/usr/bin/env python3
"""Confirms planted bugs, each in a private copy of /repo and /verif bind-mounted
over the originals in a mount namespace of its own (nothing in the real trees is
touched).   seedtest.py [-j N] [--no-tests] [--check C01,C02|own|none] [ids...]"""
import argparse, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRIPT = r'''
set -u
mount --bind "$S/repo" /repo && mount --bind "$S/verif" /verif || exit 99
cd /repo
bash /opt/vp/build.sh >$S/b0 2>&1 || { echo "clean build fails"; exit 1; }
timeout 300 bash $S/demo/demo.sh >$S/d0 2>&1; echo "demo clean: $?"
git apply $S/patch.diff || { echo "patch does not apply"; exit 1; }
bash /opt/vp/build.sh >$S/b1 2>&1 || { echo "build fails"; tail -5 $S/b1; exit 1; }
timeout 300 bash $S/demo/demo.sh >$S/d1 2>&1; echo "demo patched: $?"
if [ "$TESTS" = 1 ]; then bash /opt/vp/test.sh $S/t.json >$S/t.log 2>&1
python3 -c "
import json
t=json.load(open('$S/t.json'));b=json.load(open('/opt/vp/BASELINE.json'))
x=set(b['stable'])-set(t['passed']); print('tests:', 'pass' if not x else 'FAIL %s'%sorted(x))"; fi
for c in $CHECKS; do cd /verif; VERIF_SEED=${SEED:-1} VERIF_TIER=quick VERIF_SHRINK=5 timeout 900 /opt/venv/bin/python run.py $c >$S/c 2>$S/ce; echo "check $c: $? $(grep -v ^VIOL $S/c | head -1 | cut -c1-160)"; done
'''
def one(i, a):
    S = tempfile.mkdtemp(prefix='seed-', dir='/tmp/w')
    try:
        d = os.path.join(V, 'seeded', i)
        subprocess.check_call(['cp', '-a', '/repo', S + '/repo'])
        subprocess.check_call(['git', '-C', S + '/repo', 'checkout', '-q', '--', '.'])
        shutil.copytree(V, S + '/verif', ignore=shutil.ignore_patterns('seeded', '.git', 'evidence', 'replays'))
        shutil.copytree(d, S + '/demo', ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
        shutil.copy(d + '/patch.diff', S)
        m = json.load(open(d + '/meta.json'))
        ch = m['property'] if a.check == 'own' else '' if a.check == 'none' else a.check.replace(',', ' ')
        env = dict(os.environ, S=S, TESTS='0' if a.no_tests else '1', CHECKS=ch)
        p = subprocess.run(['unshare', '-Urm', 'bash', '-c', SCRIPT], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out = p.stdout.decode()
        if 'demo clean: 0' not in out and os.path.exists(S + '/d0'):
            out += open(S + '/d0').read()[-600:]
        if a.v and os.path.exists(S + '/d1'):
            out += open(S + '/d1').read()[-600:]
        return '== %s (%s)\n%s' % (i, m['property'], out)
    finally:
        shutil.rmtree(S, ignore_errors=True)
ap = argparse.ArgumentParser()
ap.add_argument('-j', type=int, default=2)
ap.add_argument('-v', action='store_true')
ap.add_argument('--no-tests', action='store_true')
ap.add_argument('--check', default='own')
ap.add_argument('ids', nargs='*')
a = ap.parse_args()
ids = a.ids or sorted(os.listdir(os.path.join(V, 'seeded')))
os.makedirs('/tmp/w', exist_ok=True)
with ThreadPoolExecutor(a.j) as ex:
    for r in ex.map(lambda i: one(i, a), ids):
        print(r, flush=True)
