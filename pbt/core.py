"""Shared machinery of the property checks.

A property module (pbt/pNN.py) defines

    PROP  = 'C01'
    RULE  = how cases are made and what makes one non-trivial
    SUBS  = [Sub(name, strategy, check, quick=.., thorough=..), ...]

`strategy` generates a *case*: plain JSON-able data (numbers, strings, lists,
dicts).  `check(case, ctx)` builds the real objects out of the case, runs the
code under test, and raises Violation when an oracle disagrees.  Because a case
is plain data, a failure is replayed by calling check() on the JSON of the
shrunk case: no generator library involved.
"""
import math
import json
import os
import sys
import time
import traceback
import hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')


class Violation(Exception):
    """The code under test disagrees with an oracle."""

    def __init__(self, msg, sig=None):
        super(Violation, self).__init__(msg)
        self.sig = sig


class Skip(Exception):
    """The generated case is outside the property's domain: not counted."""


class Ctx(object):
    """Collects what a case actually exercised."""

    def __init__(self):
        self.tags = set()
        self.nontrivial = False

    def tag(self, *tags):
        for t in tags:
            self.tags.add(str(t))

    def nt(self, cond=True):
        if cond:
            self.nontrivial = True


class Sub(object):
    def __init__(self, name, strategy, check, quick=100, thorough=2000,
                 shards=1, doc=''):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough
        self.shards = shards
        self.doc = doc


def require(cond, msg, sig=None):
    if not cond:
        raise Violation(msg() if callable(msg) else msg, sig=sig)


def close(a, b, atol, rtol=0., what='', sig=None):
    """|a-b| <= atol + rtol*|b| elementwise; NaNs never compare close."""
    import numpy as np
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        raise Violation('%s: shape %s, expected %s' % (what, a.shape, b.shape),
                        sig=sig)
    if a.size == 0:
        return
    with np.errstate(all='ignore'):
        bad = ~(np.abs(a - b) <= atol + rtol * np.abs(b))
    # equal infinities are equal
    bad &= ~((a == b))
    if np.any(bad):
        w = np.argwhere(np.atleast_1d(bad))[0]
        w = tuple(int(i) for i in w)
        av = np.atleast_1d(a)[w]
        bv = np.atleast_1d(b)[w]
        raise Violation('%s: at %s got %.12g, expected %.12g (tolerance %.3g+%.3g*|expected|; %d of %d differ)' %
                        (what, w, av, bv, float(np.max(atol)), rtol,
                         int(bad.sum()), a.size), sig=sig)


def from_sut(tb):
    """Did this traceback pass through the code under test?"""
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if os.path.abspath(fn).startswith(os.path.join(REPO, '')):
            return True
        tb = tb.tb_next
    return False


class HarnessError(Exception):
    pass


def run_check(sub, case, ctx):
    """Runs one case.  Returns None if it held, or a Violation."""
    try:
        sub.check(case, ctx)
        return None
    except Violation as v:
        return v
    except Skip:
        raise
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        # On the unchanged tree no check raises: an exception, wherever it
        # surfaces, means the code gave back something the oracle could not
        # even be compared with.
        where = 'from the code under test' if from_sut(e.__traceback__) else \
            'while judging what the code under test returned'
        txt = ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-4:])
        return Violation('unexpected %s %s: %s\n%s' %
                         (type(e).__name__, where, e, txt),
                         sig='exception:%s' % type(e).__name__)


def casekey(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()


def derive_seed(*parts):
    h = hashlib.sha256(repr(parts).encode()).digest()
    return int.from_bytes(h[:8], 'big')


# how many times the base number of cases the quick tier runs (so that each check takes about half a minute on 8 cores)
MORE = dict(C01=3, C02=3, C03=3, C04=3, C05=2, C06=1.5, C07=2.5, C08=2.5, C09=2, C10=2, C11=3, C12=3, C13=1.5, C14=1.3, C15=1.5,
            C16=3, C17=4, C18=4, C19=4, C20=3, C21=2, C23=2, C24=2, C26=1.2)


def load_property(pid):
    import importlib
    mod = importlib.import_module('pbt.%s' % pid.lower())
    if not getattr(mod, 'multiplied', False):
        mod.multiplied = True
        x = MORE.get(pid.upper(), 1.)
        for s in mod.SUBS:
            s.quick = int(s.quick * x)
            s.shards = min(8, int(math.ceil(s.shards * min(x, 2.5))))
    return mod


def quiet_stdout():
    """The code under test prints a lot; send its stdout to /dev/null, at the
    file-descriptor level because some of it comes from C."""
    sys.stdout.flush()
    saved = os.dup(1)
    nul = os.open(os.devnull, os.O_WRONLY)
    os.dup2(nul, 1)
    os.close(nul)
    return saved


def worker(pid, subname, tier, seed, shard, nshards, outfn, casefn, budget,
           shrink_budget=None):
    """Runs one shard of one sub-check; writes a JSON report to outfn."""
    if shrink_budget is None:
        shrink_budget = float(os.environ.get('VERIF_SHRINK', '45'))
    import logging
    quiet_stdout()
    logging.disable(logging.CRITICAL)
    import numpy as np
    np.seterr(all='ignore')
    import warnings
    warnings.simplefilter('ignore')
    mod = load_property(pid)
    sub = [s for s in mod.SUBS if s.name == subname][0]
    known = known_signatures(pid)
    n = sub.quick if tier == 'quick' else sub.thorough
    n = max(1, n // nshards)
    rep = dict(sub=subname, shard=shard, evaluations=0, nontrivial=[],
               skipped=0, tags={}, samples=[], failure=None, error=None,
               known={}, wall=0.)
    t0 = time.time()
    state = dict(first_fail=None, best=None, stop=False)

    import hypothesis
    from hypothesis import given, settings, seed as hseed, HealthCheck, Phase

    def body(case):
        now = time.time()
        if state['best'] is None:
            if now - t0 > budget:
                state['stop'] = True
                return
        elif now - state['first_fail'] > shrink_budget:
            # out of shrinking time: keep the smallest failure seen so far
            raise StopShrinking()
        ctx = Ctx()
        with open(casefn, 'w') as f:
            json.dump(dict(sub=subname, case=case, t=now), f)
        try:
            v = run_check(sub, case, ctx)
        except Skip:
            rep['skipped'] += 1
            hypothesis.reject()
            return
        if state['best'] is None:
            rep['evaluations'] += 1
            for t in ctx.tags:
                rep['tags'][t] = rep['tags'].get(t, 0) + 1
            if ctx.nontrivial:
                rep['nontrivial'].append(casekey(case))
                if len(rep['samples']) < 3:
                    rep['samples'].append(dict(sub=subname, case=case,
                                               exercised=sorted(ctx.tags)))
        if v is not None:
            if v.sig is not None and v.sig in known:
                rep['known'][v.sig] = rep['known'].get(v.sig, 0) + 1
                return
            size = len(json.dumps(case))
            if state['best'] is None:
                state['first_fail'] = time.time()
            if state['best'] is None or size <= state['best'][0]:
                state['best'] = (size, case, str(v), v.sig)
            raise v

    test = given(case=sub.strategy)(body)
    test = settings(max_examples=n, database=None, deadline=None,
                    derandomize=False, report_multiple_bugs=False,
                    print_blob=False, verbosity=hypothesis.Verbosity.quiet,
                    phases=[Phase.generate, Phase.target, Phase.shrink],
                    suppress_health_check=list(HealthCheck))(test)
    test = hseed(derive_seed(seed, pid, subname, shard))(test)
    try:
        test()
    except HarnessError as e:
        rep['error'] = str(e)
    except BaseException as e:
        if state['best'] is None:
            rep['error'] = ''.join(traceback.format_exception(type(e), e, e.__traceback__))
    if state['best'] is not None:
        size, case, msg, sig = state['best']
        rep['failure'] = dict(case=case, message=msg, sig=sig)
    rep['wall'] = time.time() - t0
    rep['truncated'] = state['stop']
    tmp = outfn + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(rep, f, default=str)
    os.rename(tmp, outfn)


class StopShrinking(BaseException):
    pass


def known_findings(pid=None):
    fn = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(fn):
        return []
    with open(fn) as f:
        K = json.load(f)
    return [k for k in K.get('findings', [])
            if pid is None or k['property'] == pid]


def known_signatures(pid):
    return set(k['sig'] for k in known_findings(pid) if k.get('sig'))
