"""mutrun.py SCALE CNN CNN ...: runs the checks one after another in this process, without shrinking, until one fails (exit 1)."""
import os, sys, time, importlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import logging
logging.disable(logging.CRITICAL)
import numpy as np
import hypothesis
from hypothesis import given, settings, seed, HealthCheck, Phase
from pbt import core
import tempfile
scale = float(sys.argv[1])
out = os.fdopen(os.dup(1), 'w')
core.quiet_stdout()
np.seterr(all='ignore')
os.environ.setdefault('VERIF_SCRATCH', tempfile.mkdtemp(prefix='scr-', dir='/tmp'))


class Bad(BaseException):
    pass


for pid in sys.argv[2:]:
    mod = core.load_property(pid)
    t0 = time.time()
    for sub in mod.SUBS:
        n = max(4, int(sub.quick * scale))

        def body(case):
            try:
                v = core.run_check(sub, case, core.Ctx())
            except core.Skip:
                hypothesis.reject()
            if v is not None:
                raise Bad(v)
        t = settings(max_examples=n, deadline=None, database=None, suppress_health_check=list(HealthCheck), phases=[Phase.generate])(seed(7)(given(case=sub.strategy)(body)))
        t.hypothesis = getattr(t, 'hypothesis', None)
        try:
            t()
        except Bad as e:
            out.write('KILLED %s %s %s\n' % (pid, sub.name, str(e.args[0])[:200]))
            out.flush()
            os._exit(1)
        except hypothesis.errors.Unsatisfiable:
            out.write('KILLED %s %s unsatisfiable\n' % (pid, sub.name)); out.flush()
            os._exit(1)
    out.write('%s held %.1f s\n' % (pid, time.time() - t0)); out.flush()
os._exit(0)
