"""C02: the result of a run does not depend on the number of threads or on how they interleave."""
from simctx import gen_policy
import ysc, deep
BUDGET = {'quick': (8000, 45), 'thorough': (300000, 1500)}
RULE = ('Cases: a random scene (2..30 spheres, contact law out of %d, optional box/wall/facet, gravity, damping, periodic cell with velocity gradient, clumps, blocked DOFs, energy tracking, time stepper, engines which drive bodies, walls or the cell) '
        'run for 5..40 steps single-threaded and again with 2..8 threads under a seeded interleaving.' % len(ysc.CORE_LAWS))
PROBES = ['contacts', 'periodic', 'clumps', 'energy', 'ts', 'triax', 'peritriax', 'periiso', 'peri3d'] + ysc.CONTROLS + ['law-' + l for l in ysc.CORE_LAWS]


def generate(rng, tier):
    return {'threads': rng.choice([2, 2, 3, 4, 5, 8]), 'pol': gen_policy(rng), 'scene': ysc.gen_control(rng, ysc.gen_scene(rng)), 'steps': rng.choice([5, 10, 20, 40]), 'bg': rng.random() < .3}


def run(case, ctx, threads):
    import yade.wrapper as W
    ctx.threads(threads)
    O = W.Omega()
    O.reset()
    ysc.build(case['scene'], O, W)
    if case['bg'] and threads > 1:
        O.run(case['steps'], True)
    else:
        for _ in range(case['steps']):
            O.step()
    d = deep.scene(O)
    return ysc.snapshot(O), {'bodies': [b and {k: v for k, v in b.items() if k in ('state', 'dynamic', 'clumpId', 'iterBorn')} for b in d['bodies']], 'engines': d['engines'], 'cell': d.get('cell')}


def execute(case, ctx):
    try:
        a, da = run(case, ctx, 1)
    except RuntimeError as e:
        if 'half of the cell' in str(e) or 'cell size' in str(e) or 'shring cell' in str(e):  # the generated scene blew up; the single-threaded reference says so
            return ctx.probe('discarded')
        raise
    b, db = run(case, ctx, case['threads'])
    sc = case['scene']
    ctx.probe('law-' + sc['law'])
    for k, v in (('contacts', a['intr']), ('periodic', sc.get('cell')), ('clumps', sc['clumps']), ('energy', sc['energy']), ('ts', sc['ts'])):
        if v:
            ctx.probe(k)
    ysc.probes(sc, ctx)
    d = ysc.diff(a, b, tol=1e-8)
    ctx.check(d is None, 'thread-dependence', lambda: '1 thread / %d threads after %d steps: %s' % (case['threads'], case['steps'], d))
    # everything else the bodies, engines and functors expose: damage and crack counters, totals, periodic engines' histories...
    d = deep.diff(da, db, tol=1e-6, atol=1e-8)
    ctx.check(d is None, 'thread-dependence-attr', lambda: '1 thread / %d threads after %d steps: %s' % (case['threads'], case['steps'], d))
    ctx.mix([x and tuple(round(c, 9) for c in x[0]) for x in a['bodies']])
