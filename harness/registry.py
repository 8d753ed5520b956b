"""Which harness functions decide which property, with which bounds."""
import importlib

MODULES = ['graphs', 'constraint', 'container', 'stats', 'score', 'metrics', 'simul', 'kernels', 'visual', 'pointproc', 'lingam', 'hawkes', 'hsic', 'entropy', 'nets', 'cvscore']


class Job:
    def __init__(self, name, fn, args=(), engine='merge', tiers=('quick', 'thorough'), bounds='', covers=(), fallback=None,
                 budget=400, hard=840, cost=1, loop_bound=200, validate=20, opts=None):
        self.name = name
        self.fn = fn
        self.args = list(args)
        self.engine = engine
        self.tiers = tiers
        self.bounds = bounds
        self.covers = list(covers)
        self.fallback = fallback
        self.budget = budget
        self.hard = hard
        self.cost = cost
        self.loop_bound = loop_bound
        self.validate = validate
        self.opts = opts or {}


def _mods():
    for m in MODULES:
        yield importlib.import_module('harness.' + m)


def jobs(pid, tier):
    r = []
    for m in _mods():
        for j in m.JOBS.get(pid, []):
            if tier in j.tiers:
                r.append(j)
    if not r:
        raise SystemExit('no job for %s' % pid)
    return r


def assumptions(pid):
    r = []
    for m in _mods():
        r += getattr(m, 'ASSUME', {}).get(pid, [])
    return r
