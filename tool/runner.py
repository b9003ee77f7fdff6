"""Runs the rule engine over every function of the library and collects what it found."""
import os
import sys
import time
from concurrent.futures import ProcessPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import frontend
import spec
import engine
import rules


class Result:
    pass


PR = SP = None


def analyse(f):
    e = rules.RuleEngine(PR, f, SP)
    t = time.time()
    err = None
    try:
        e.run()
    except engine.Budget as x:
        err = str(x)
    except Exception as x:      # one function that cannot be analysed must not silence the others
        if os.environ.get('VERIF_DEBUG'):
            raise
        err = 'internal: %s %s' % (type(x).__name__, x)
    return dict(func=f, states=e.nstates, exits=e.exits, wall=time.time() - t, events=list(e.events.values()),
                budget=err, sites={k: len(v) for k, v in e.sites.items()}, facts=e.export_facts())


def load():
    global PR, SP
    SP = spec.Spec()
    PR = frontend.load(SP.boundary)
    SP.bind(PR)
    return PR, SP


def run_all(only=None, jobs=8):
    t = time.time()
    if PR is None:
        load()
    fs = PR.analyse
    if only:
        fs = [f for f in fs if frontend.basename(f) in only]
    fs = sorted(fs, key=lambda f: (-(frontend.basename(f) == 'eval_expression'), -PR.mod.funcs[f].ninstr))
    if len(fs) < 4 or jobs == 1:
        out = [analyse(f) for f in fs]
    else:
        with ProcessPoolExecutor(jobs) as ex:
            out = list(ex.map(analyse, fs, chunksize=1))
    R = Result()
    R.pr = PR
    R.sp = SP
    R.funcs = {r['func']: r for r in out}
    R.counts = {}
    for r in out:
        for k, n in r['facts']['obl'].items():
            R.counts[k] = R.counts.get(k, 0) + n
    R.events = [e for r in out for e in r['events']]
    R.events += rules.post(PR, SP, R)
    R.wall = time.time() - t
    return R
