"""C14: domain decomposition by bisection gives every sphere to exactly one worker, evenly, and the distributed run stays the same simulation."""
import mpx
import c13
from c13 import execute
BUDGET = {'quick': (4000, 30), 'thorough': (200000, 1500)}
MULTIPROCESS = True
TIMEOUT = 90
RULE = ('Cases: 4..60 spheres with a floor, a moving plate or a dynamic box kept by the master, 1, 2, 4 or 8 workers, subdomains assigned by recursive bisection (mpy_bisection, mpf_bisection, tree_decomp; 2D and 3D; once or again at every split), '
        'runs without and with merge/split at collider updates, merges between runs, velocities changed in between.  Network decisions as for C13.')
PROBES = ['mpy_bisection', 'mpf_bisection', 'reassign',  'paused', 'merged', 'ghosts', 'wallforce', 'moving', 'dynamic', 'messages', 'workers1', 'workers8']
REAL = 'yade core, pkg/common, pkg/dem, core/Subdomain, python wrapper, py/mpy_bisection.py, py/mpf_bisection.py and py/tree_decomp.py from /repo, one process per rank'
STUB = c13.STUB


def generate(rng, tier):
    c = c13.generate(rng, tier)
    w = rng.choice([1, 2, 2, 4, 4, 4, 8] if tier == 'quick' else [1, 2, 4, 8, 8])
    while len(c['bodies']) < 2 * w:
        b = list(rng.choice(c['bodies']))
        b[0] = mpx.r6(rng.choice([-1, 1]) * (40 + 1.02 * len(c['bodies'])) + rng.uniform(-.01, .01))
        c['bodies'].append(b)
    c.update(n=w + 1, sd=None, mod=rng.choice(['mpy_bisection', 'mpf_bisection']), ndim=rng.choice([2, 3]), reassign=rng.random() < .5, master=[])
    return c
