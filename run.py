#!/opt/venv/bin/python
"""Decides one property of tractor by generated-input search.

  run.py C01                 quick tier (or $VERIF_TIER)
  run.py C01 --tier thorough
  run.py C01 --replay FILE   re-run one recorded case, no generator involved

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.
Anything else: the check itself failed (build error, harness error).
"""
import argparse
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'


def base_env():
    env = dict(os.environ)
    env.update(PYTHONPATH='/repo:%s' % VERIF, PYTHONDONTWRITEBYTECODE='1',
               PYTHONHASHSEED='0', MPLBACKEND='Agg', OMP_NUM_THREADS='1',
               OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1',
               VERIF_REPO='/repo', PYTHONWARNINGS='ignore')
    return env


def build():
    """Rebuild /repo's extensions from the working tree."""
    import fcntl
    lock = os.path.join(tempfile.gettempdir(), 'tractor-verif-build.lock')
    with open(lock, 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        p = subprocess.run(['bash', '/opt/vp/build.sh'], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT)
    if p.returncode != 0:
        sys.stderr.write(p.stdout.decode(errors='replace')[-4000:])
        sys.stderr.write('run.py: build failed\n')
        sys.exit(3)


def sanitized(scratch):
    """A copy of /repo's working tree whose extensions are compiled with AddressSanitizer and
    UndefinedBehaviorSanitizer; returns the environment in which to run it."""
    dst = os.path.join(scratch, 'san')
    os.mkdir(dst)
    shutil.copy('/repo/setup.py', dst)
    for d in ('tractor', 'wise'):
        if os.path.isdir('/repo/' + d):
            shutil.copytree('/repo/' + d, os.path.join(dst, d),
                            ignore=shutil.ignore_patterns('*.so', '__pycache__', '*_wrap.c', '*_wrap.cpp', '*.fits'))
    env = dict(os.environ)
    env.pop('PYTHONPATH', None)
    flags = '-fsanitize=address,undefined -fno-omit-frame-pointer -g -O1'
    eig = subprocess.run(['pkg-config', '--cflags', 'eigen3'], stdout=subprocess.PIPE).stdout.decode().strip()
    # Eigen allocates differently when it sees AddressSanitizer; libceres was compiled without it.
    env.update(CFLAGS=flags, CXXFLAGS=flags, LDFLAGS='-fsanitize=address,undefined',
               EIGEN_INC=eig + ' -DEIGEN_MALLOC_ALREADY_ALIGNED=1')
    p = subprocess.run([PY, 'setup.py', 'build_ext', '--inplace', '--with-ceres', '--force', '-j', '4'], cwd=dst, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        sys.stderr.write(p.stdout.decode(errors='replace')[-4000:])
        sys.stderr.write('run.py: sanitized build failed\n')
        sys.exit(3)
    libs = [subprocess.run(['gcc', '-print-file-name=%s.so' % l], stdout=subprocess.PIPE).stdout.decode().strip()
            for l in ('libasan', 'libubsan', 'libstdc++')]
    return dict(PYTHONPATH='%s:%s' % (dst, VERIF), VERIF_REPO=dst, LD_PRELOAD=' '.join(libs), PYTHONMALLOC='malloc',
                ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:halt_on_error=1:allocator_may_return_null=1',
                UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:abort_on_error=1')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--sub', action='append')
    ap.add_argument('--no-build', action='store_true')
    ap.add_argument('--scale', type=float, default=1.)
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '0')) or (os.cpu_count() or 4))
    ap.add_argument('-v', action='store_true')
    opt = ap.parse_args()
    if not opt.no_build:
        build()
    env = base_env()
    if os.environ.get('VERIF_CHILD') != '1':
        # re-exec with the fixed environment
        env['VERIF_CHILD'] = '1'
        args = [a for a in sys.argv[1:] if a != '--no-build'] + ['--no-build']
        os.execve(PY, [PY, '-W', 'ignore', os.path.join(VERIF, 'run.py')] + args, env)
    sys.path.insert(0, VERIF)
    from pbt import core
    mod = core.load_property(opt.prop)
    if opt.replay and getattr(mod, 'SANITIZE', False) and not os.environ.get('LD_PRELOAD'):
        # in a process of its own, which the sanitizer may end
        scratch = tempfile.mkdtemp(prefix='tractor-verif-')
        try:
            q = subprocess.run([PY, '-W', 'ignore', os.path.join(VERIF, 'run.py'), opt.prop, '--no-build', '--replay', opt.replay],
                               cwd=VERIF, env=dict(os.environ, **sanitized(scratch)))
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        if q.returncode < 0:
            print('replay: process ended by signal %d' % -q.returncode)
            print('VIOLATION property=%s replay=%s' % (mod.PROP, opt.replay))
            return 1
        return q.returncode
    if opt.replay:
        return replay(core, mod, opt)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='tractor-verif-')
    os.environ['VERIF_SCRATCH'] = scratch
    try:
        rc = explore(core, mod, opt, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return rc


def replay(core, mod, opt):
    import logging
    with open(opt.replay) as f:
        R = json.load(f)
    sub = [s for s in mod.SUBS if s.name == R['sub']][0]
    saved = core.quiet_stdout()
    logging.disable(logging.CRITICAL)
    import numpy as np
    np.seterr(all='ignore')
    scratch = tempfile.mkdtemp(prefix='tractor-verif-')
    os.environ['VERIF_SCRATCH'] = scratch
    try:
        v = core.run_check(sub, R['case'], core.Ctx())
    except core.Skip:
        v = None
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    os.dup2(saved, 1)
    if v is None:
        print('replay: property %s held on this case' % mod.PROP)
        return 0
    print('replay: %s' % v)
    print('VIOLATION property=%s replay=%s' % (mod.PROP, opt.replay))
    return 1


def explore(core, mod, opt, scratch, t0):
    tier = opt.tier if opt.tier in ('quick', 'thorough') else 'quick'
    subs = [s for s in mod.SUBS if not opt.sub or s.name in opt.sub]
    jobs = []
    for s in subs:
        if opt.scale != 1.:
            s.quick = max(1, int(s.quick * opt.scale))
            s.thorough = max(1, int(s.thorough * opt.scale))
        nsh = s.shards if tier == 'quick' else max(s.shards, opt.jobs)
        for i in range(nsh):
            jobs.append((s, i, nsh))
    budget = float(os.environ.get('VERIF_BUDGET', '0')) or (240. if tier == 'quick' else 3600.)
    hang = 240.
    running = {}
    reports = []
    failures = []
    errors = []
    njob = 0
    pending = list(jobs)
    failed = False
    wenv = dict(os.environ)
    if getattr(mod, 'SANITIZE', False):
        wenv.update(sanitized(scratch))
    while pending or running:
        while pending and len(running) < opt.jobs and not failed:
            s, i, nsh = pending.pop(0)
            outfn = os.path.join(scratch, 'out%d.json' % njob)
            casefn = os.path.join(scratch, 'case%d.json' % njob)
            errfn = os.path.join(scratch, 'err%d.txt' % njob)
            njob += 1
            code = ('from pbt import core; core.worker(%r,%r,%r,%d,%d,%d,%r,%r,%r)' %
                    (opt.prop, s.name, tier, opt.seed, i, nsh, outfn, casefn, budget))
            if opt.scale != 1.:
                code = ('from pbt import core; m=core.load_property(%r)\n'
                        'for s in m.SUBS: s.quick=max(1,int(s.quick*%r)); s.thorough=max(1,int(s.thorough*%r))\n' %
                        (opt.prop, opt.scale, opt.scale)) + code
            p = subprocess.Popen([PY, '-W', 'ignore', '-c', code], cwd=VERIF, env=wenv,
                                 stdout=subprocess.DEVNULL,
                                 stderr=open(errfn, 'w'), start_new_session=True)
            running[p] = (s, outfn, casefn, errfn)
        if failed and not running:
            break
        time.sleep(0.05)
        for p in list(running):
            s, outfn, casefn, errfn = running[p]
            rc = p.poll()
            if rc is None:
                if os.path.exists(casefn) and time.time() - os.path.getmtime(casefn) > hang:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    del running[p]
                    C = json.load(open(casefn))
                    failures.append((s.name, C['case'], 'no answer within %d s' % hang, 'hang'))
                    failed = True
                continue
            del running[p]
            if os.path.exists(outfn):
                with open(outfn) as f:
                    R = json.load(f)
                reports.append(R)
                if opt.v:
                    sys.stderr.write('%s[%d]: %d cases, %d nontrivial, %d skipped, %.1f s%s\n' %
                                     (R['sub'], R['shard'], R['evaluations'],
                                      len(set(R['nontrivial'])), R['skipped'], R['wall'],
                                      ' TRUNCATED' if R.get('truncated') else ''))
                    sys.stderr.write('    %s\n' % (sorted(R['tags'].items()),))
                if R['error']:
                    errors.append((s.name, R['error']))
                    failed = True
                elif R['failure']:
                    F = R['failure']
                    failures.append((s.name, F['case'], F['message'], F['sig']))
                    failed = True
            else:
                err = open(errfn).read()
                if rc < 0 and os.path.exists(casefn):
                    # the code under test killed the process
                    C = json.load(open(casefn))
                    failures.append((s.name, C['case'], 'process killed by signal %d\n%s' % (-rc, crash(err)),
                                     'signal%d' % -rc))
                    failed = True
                else:
                    errors.append((s.name, 'worker exit %d\n%s' % (rc, err[-4000:])))
                    failed = True
    # known findings: show that each still fails
    for k in core.known_findings(opt.prop):
        sub = [s for s in mod.SUBS if s.name == k['sub']]
        still = True
        if sub and k.get('case') is not None:
            fn = os.path.join(scratch, 'known.json')
            with open(fn, 'w') as f:
                json.dump(dict(sub=k['sub'], case=k['case']), f)
            q = subprocess.run([PY, '-W', 'ignore', os.path.join(VERIF, 'run.py'), opt.prop,
                                '--no-build', '--replay', fn], cwd=VERIF,
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            still = (q.returncode != 0)
        if still:
            print('KNOWN-FINDING: property=%s %s' % (opt.prop, k['what']))
    nontriv = set()
    tags = {}
    samples = []
    persub = {}
    for R in reports:
        for h in R['nontrivial']:
            nontriv.add(R['sub'] + h)
        for t, n in R['tags'].items():
            tags[R['sub'] + ':' + t] = tags.get(R['sub'] + ':' + t, 0) + n
        samples.extend(R['samples'][:2])
        d = persub.setdefault(R['sub'], dict(evaluations=0, skipped=0, truncated=False))
        d['evaluations'] += R['evaluations']
        d['skipped'] += R['skipped']
        d['truncated'] |= bool(R.get('truncated'))
    for s in subs:
        if s.name in persub:
            persub[s.name]['what'] = s.doc
    ev = dict(property=opt.prop, tier=tier, seed=opt.seed, level='exploration',
              coverage=dict(evaluations=sum(R['evaluations'] for R in reports),
                            distinct_nontrivial=len(nontriv),
                            rule=mod.RULE, samples=trim(samples[:8]),
                            sub_checks=persub, exercised=tags),
              assumptions=getattr(mod, 'ASSUMPTIONS', []),
              wall_s=round(time.time() - t0, 2), violations=len(failures))
    if errors:
        for n, e in errors:
            sys.stderr.write('HARNESS ERROR in %s/%s:\n%s\n' % (opt.prop, n, e))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', '%s.json' % opt.prop), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    if failures:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        for i, (name, case, msg, sig) in enumerate(failures):
            fn = os.path.join(VERIF, 'replays', '%s-%s-%d.json' % (opt.prop, name, i))
            with open(fn, 'w') as f:
                json.dump(dict(property=opt.prop, sub=name, case=case,
                               message=msg, sig=sig,
                               how='python run.py %s --replay %s' % (opt.prop, fn)), f, indent=1)
            print('%s/%s: %s' % (opt.prop, name, msg))
            print('VIOLATION property=%s replay=%s' % (opt.prop, fn))
        return 1
    if errors:
        return 2
    print('%s: held on %d cases (%d distinct non-trivial), %.1f s' %
          (opt.prop, ev['coverage']['evaluations'], len(nontriv), ev['wall_s']))
    return 0


def crash(err):
    """What the sanitizer (or the C library) said."""
    for k in ('ERROR: AddressSanitizer', 'runtime error', 'Assertion', 'Fatal Python'):
        i = err.find(k)
        if i >= 0:
            return err[max(0, i - 200):i + 1500]
    return err[-2000:]


def trim(samples, limit=3000):
    out = []
    for s in samples:
        t = json.dumps(s, default=str)
        if len(t) > limit:
            s = dict(sub=s.get('sub'), exercised=s.get('exercised'),
                     case_truncated=t[:limit])
        out.append(s)
    return out


if __name__ == '__main__':
    sys.exit(main())
