#!/usr/bin/env python3
"""Mutation testing of the checks: random small changes of the Python code of
/repo/tractor, each in a private copy, run against the checks that execute the
changed line, until one raises an alarm.
  mutate.py COVDIR N SEED OUT.jsonl [-j 8] [--scale 0.4] [file.py ...]
COVDIR holds one {file: [lines]} JSON per check module."""
import argparse, ast, glob, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
import threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'


def mutants(path):
    """(line, description, start, end, replacement) of every mutant of a file."""
    src = open(path).read()
    off = [0]
    for l in src.splitlines(True):
        off.append(off[-1] + len(l.encode()))
    b = src.encode()
    P = lambda ln, col: off[ln - 1] + col
    span = lambda n: (P(n.lineno, n.col_offset), P(n.end_lineno, n.end_col_offset))
    text = lambda n: b[slice(*span(n))].decode()
    out = []

    def add(n, new, what):
        s, e = span(n)
        out.append((n.lineno, what, s, e, new))
    BIN = {ast.Add: ('+', '-'), ast.Sub: ('-', '+'), ast.Mult: ('*', '/'), ast.Div: ('/', '*'), ast.FloorDiv: ('//', '/')}
    CMP = {ast.Lt: ['<=', '>='], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<='], ast.GtE: ['>', '<'], ast.Eq: ['!='], ast.NotEq: ['=='], ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}
    infunc = []

    def walk(n, depth):
        for f in ast.iter_child_nodes(n):
            d = depth + isinstance(f, (ast.FunctionDef, ast.Lambda))
            if d:
                visit(f)
            walk(f, d)

    def visit(n):
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            new = BIN[type(n.op)][1]
            if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                return
            add(n, '(%s %s %s)' % (text(n.left), new, text(n.right)), 'op %s -> %s' % BIN[type(n.op)])
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            for new in CMP[type(n.ops[0])]:
                add(n, '(%s %s %s)' % (text(n.left), new, text(n.comparators[0])), 'cmp -> ' + new)
        elif isinstance(n, ast.BoolOp):
            new = ' or ' if isinstance(n.op, ast.And) else ' and '
            add(n, '(' + new.join('(%s)' % text(v) for v in n.values) + ')', 'bool ->' + new)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            add(n, '(%s)' % text(n.operand), 'drop unary')
        elif isinstance(n, (ast.If, ast.While)):
            add(n.test, '(not (%s))' % text(n.test), 'negate condition')
            if isinstance(n, ast.If):
                add(n.test, '(False)', 'condition False')
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
            if n.value == 0:
                add(n, '1' if type(n.value) is int else '1.', 'const 0 -> 1')
            elif n.value == 1:
                add(n, '0' if type(n.value) is int else '2.', 'const 1 -> 0/2')
            else:
                add(n, '(%r)' % (n.value + 1 if type(n.value) is int else n.value * 1.5), 'const changed')
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            add(n, str(not n.value), 'bool flipped')
        elif isinstance(n, (ast.Assign, ast.AugAssign)) and n.lineno == n.end_lineno or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            if isinstance(n, ast.Expr) and text(n).split('(')[0] in ('print', 'debug', 'logger.debug', 'info', 'logverb', 'logmsg', 'logger.info', 'warnings.warn'):
                return
            if isinstance(n, ast.Assign):
                t = n.targets[0]
                if isinstance(t, ast.Name):
                    return
            add(n, 'pass', 'statement dropped')
        elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            add(n.value, 'None', 'return None')
        elif isinstance(n, (ast.Continue, ast.Break)):
            add(n, 'pass', 'continue/break dropped')
        elif isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr in ('copy',) and not n.args:
                add(n, text(f.value), 'copy dropped')
            if isinstance(f, ast.Name) and f.id in ('print', 'isinstance', 'hasattr', 'getattr', 'debug', 'logverb', 'logmsg', 'range', 'zip', 'super'):
                return
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args) and n.args[0].lineno == n.args[-1].end_lineno:
                i = 0
                s, e = span(n.args[0])[0], span(n.args[1])[1]
                out.append((n.lineno, 'args swapped', s, e, '%s, %s' % (text(n.args[1]), text(n.args[0]))))
            if n.keywords and n.keywords[-1].arg:
                k = n.keywords[-1]
                s, e = span(k)
                out.append((k.value.lineno, 'keyword %s dropped' % k.arg, s, e, ''))
            if isinstance(f, ast.Attribute) and f.attr in ('min', 'max', 'minimum', 'maximum', 'floor', 'ceil', 'sin', 'cos', 'sum') or isinstance(f, ast.Name) and f.id in ('min', 'max'):
                a = f.attr if isinstance(f, ast.Attribute) else f.id
                q = dict(min='max', max='min', minimum='maximum', maximum='minimum', floor='ceil', ceil='floor', sin='cos', cos='sin', sum='mean')[a]
                t = text(f)
                add(f, t[:-len(a)] + q, '%s -> %s' % (a, q))
            if isinstance(f, ast.Attribute) and f.attr == 'round' or isinstance(f, ast.Name) and f.id in ('abs', 'float', 'int') or isinstance(f, ast.Attribute) and f.attr == 'abs':
                if n.args:
                    add(n, '(%s)' % text(n.args[0]), '%s dropped' % text(f))
    walk(ast.parse(src), 0)
    res = []
    for (ln, what, s, e, new) in out:
        m = b[:s] + new.encode() + b[e:]
        try:
            ast.parse(m.decode())
        except SyntaxError:
            continue
        if m != b:
            res.append((ln, what, s, e, new))
    return res


COST = {}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('cov'); ap.add_argument('n', type=int); ap.add_argument('seed', type=int); ap.add_argument('out'); ap.add_argument('files', nargs='*')
    ap.add_argument('-j', type=int, default=8); ap.add_argument('--scale', default='0.2'); ap.add_argument('--maxchecks', type=int, default=8)
    ap.add_argument('--lines', default='')
    a = ap.parse_intermixed_args()
    cov = {}
    for f in glob.glob(a.cov + '/*.json'):
        m = os.path.basename(f)[:-5].upper()
        for k, v in json.load(open(f)).items():
            for l in v:
                cov.setdefault((os.path.basename(k), l), []).append(m)
    rnd = random.Random(a.seed)
    allm = []
    for p in sorted(glob.glob(REPO + '/tractor/*.py')):
        f = os.path.basename(p)
        if a.files and f not in a.files:
            continue
        if not any(k[0] == f for k in cov):
            continue
        for m in mutants(p):
            if (f, m[0]) in cov:
                allm.append((f,) + m)
    print(len(allm), 'mutants of covered lines', file=sys.stderr)
    rnd.shuffle(allm)
    allm = allm[:a.n]
    # prefer the checks that execute few other things (they are about that line) and are quick
    tot = {}
    for k, v in cov.items():
        for m in v:
            tot[m] = tot.get(m, 0) + 1
    lock = threading.Lock()
    slots = [tempfile.mkdtemp(prefix='mut-', dir='/tmp/w') for i in range(a.j)]
    for s in slots:
        subprocess.check_call(['cp', '-a', REPO, s + '/repo'])
        shutil.copytree(V, s + '/verif', ignore=shutil.ignore_patterns('seeded', '.git', 'evidence', 'replays'))
        os.makedirs(s + '/verif/evidence')
    free = list(slots)
    sem = threading.Semaphore(a.j)
    hits = {}

    def one(m):
        f, ln, what, s, e, new = m
        with lock:
            S = free.pop()
        try:
            p = S + '/repo/tractor/' + f
            b = open(REPO + '/tractor/' + f, 'rb').read()
            open(p, 'wb').write(b[:s] + new.encode() + b[e:])
            checks = sorted(cov[(f, ln)], key=lambda c: (-hits.get((f, c), 0), tot[c]))[:a.maxchecks]
            killed = None
            try:
                r = subprocess.run(['unshare', '-Urm', 'bash', '-c', 'mount --bind %s/repo /repo; mount --bind %s/verif /verif; cd /verif; exec /opt/venv/bin/python -W ignore tools/mutrun.py %s %s' % (S, S, a.scale, ' '.join(checks))],
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900, env=dict(os.environ, PYTHONPATH='/repo:/verif', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1'))
                rc = r.returncode
                o = [l for l in r.stdout.decode(errors='replace').splitlines() if l.startswith('KILLED')]
                done = [l.split()[0] for l in r.stdout.decode(errors='replace').splitlines() if ' held ' in l]
                if rc != 0:
                    killed = o[0].split(None, 3)[1:] if o else [checks[min(len(done), len(checks) - 1)], 'crash', r.stdout.decode(errors='replace')[-200:]]
            except subprocess.TimeoutExpired:
                killed = ['?', 'timeout', '']
            if killed:
                with lock:
                    hits[(f, killed[0])] = hits.get((f, killed[0]), 0) + 1
            open(p, 'wb').write(b)
            line = b.decode().splitlines()[ln - 1].strip()
            rec = dict(file=f, line=ln, what=what, code=line, old=b[s:e].decode()[:120], new=new[:120], killed=killed, checks=checks)
            with lock:
                open(a.out, 'a').write(json.dumps(rec) + '\n')
                if not killed:
                    print('SURVIVED %s:%i %s | %s | %s -> %s' % (f, ln, what, line[:100], b[s:e].decode()[:60], new[:60]), flush=True)
        finally:
            with lock:
                free.append(S)
    with ThreadPoolExecutor(a.j) as ex:
        for r in ex.map(one, allm):
            pass
    for s in slots:
        shutil.rmtree(s)


main()
