"""What a workload sees: the context of one simulated run."""
import hashlib, json, os, shutil
try:
    from ysimlib import L
except KeyError:  # imported by check.py for gen_policy only
    L = None


class Violation(Exception):
    def __init__(self, kind, msg):
        Exception.__init__(self, '%s: %s' % (kind, msg))
        self.kind, self.msg = kind, msg


class Ctx(object):
    def __init__(self, scratch):
        self.scratch = scratch
        self.probes = {}
        self.evals = 0
        self.state = hashlib.sha256()
        self.known = []

    def probe(self, name, n=1):
        """count that a condition of interest was reached"""
        self.probes[name] = self.probes.get(name, 0) + n

    def check(self, cond, kind, msg=''):
        self.evals += 1
        if not cond:
            raise Violation(kind, msg() if callable(msg) else msg)

    def fail(self, kind, msg=''):
        raise Violation(kind, msg)

    def mix(self, x):
        """add an observable to the run's outcome hash (distinct states reached)"""
        self.state.update(repr(x).encode())

    def policy(self, p):
        L.ysim_policy(p.get('sync', 0), p.get('gap', 0), p.get('conf', 0), p.get('clock', 0), p.get('spur', 0), p.get('wake', 0), p.get('stall', 0))

    def threads(self, n):
        L.ysim_set_threads(n)

    def faultcount(self, k):
        return L.ysim_faultcount(k)

    def choose(self, n, p=1.0):
        return L.ysim_choose(n, p)


def gen_policy(rng, mt=True, clock=False):
    """swarm-style scheduling policy of one run"""
    r = rng.random()
    p = {'sync': rng.choice([0.02, 0.1, 0.3, 0.6]), 'gap': rng.choice([0, 300, 1500, 8000, 40000]), 'conf': rng.choice([0, 0.02, 0.1, 0.4]),
         'spur': rng.choice([0, 0, 0.05]), 'wake': rng.choice([0, 0.02, 0.1, 0.3]), 'stall': rng.choice([0, 0, 0.3])}
    if clock:
        p['clock'] = rng.choice([0, 0, 0.02, 0.2])
    return p
