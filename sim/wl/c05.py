"""C05: a saved simulation, loaded in a fresh process or scene, is the simulation that was saved and continues like it."""
import os
from simctx import gen_policy
import ysc, deep, json, re
BUDGET = {'quick': (8000, 35), 'thorough': (300000, 1500)}
FORMATS = ['.yade', '.yade.gz', '.yade.bz2', '.xml', '.xml.gz', '.xml.bz2', ':memory:', ':string:']
RULE = ('Cases: a random scene (as for C02, plus Python engines, labels, tags, permanent gaps in the body list) advanced to a random iteration, saved in one of %d formats (from the client or by a Python engine inside the step), then continued for 1..30 steps; '
        'separately a second process, which shares nothing but the file, loads and continues. The first process may be killed at any engine of any later step.' % len(FORMATS))
PROBES = ['fmt' + f for f in FORMATS] + ['fresh-process', 'inloop', 'overwrite', 'contacts', 'periodic', 'clumps', 'energy', 'erased', 'classes'] + ['law-' + l for l in ysc.CORE_LAWS]
TIMEOUT = 60


NOSAVE = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'nosave.json')))  # attributes which are not part of a saved simulation


def generate(rng, tier):
    if rng.random() < .12:
        return {'threads': 1, 'pol': gen_policy(rng), 'fmt': rng.choice(FORMATS), 'classes': [[rng.choice(sorted(NOSAVE)), rng.randrange(10 ** 6)] for _ in range(rng.choice([1, 4, 20, 60]))]}
    sc = ysc.gen_scene(rng)
    fmt = rng.choice(FORMATS)
    n = len(sc['spheres'])
    return {'threads': rng.choice([1, 1, 2, 4]), 'pol': gen_policy(rng), 'scene': sc, 'fmt': fmt, 'n1': rng.choice([0, 1, 2, 3, 7, 15, 30]), 'n2': rng.choice([1, 2, 5, 12, 30]),
            'erase': rng.sample(range(n), rng.randint(1, max(1, n // 4))) if rng.random() < .25 and not sc['clumps'] and n > 3 else [],
            'inloop': rng.choice(['', '', '', '', '', 'first', 'first', 'last']) if rng.random() < .8 else '', 'fork': fmt[0] == '.' and rng.random() < .5, 'crash': rng.randint(0, 40), 'resave': rng.random() < .2,
            'pre': rng.random() < .3, 'preclear': rng.random() < .4}


def setup(case, O, W):
    ysc.build(case['scene'], O, W)
    for i in case['erase']:
        O.bodies.erase(i)
    e = list(O.engines)
    e[-1].label = 'newton'
    e += [W.PyRunner(command='G.tick()', iterPeriod=3, label='ticker'), W.PyRunner(command='G.tock()', virtPeriod=2.5 * O.dt, initRun=True, nDo=4)]
    e.insert(0, W.PyRunner(command='G.first()', iterPeriod=1, initRun=True))
    e.append(W.PyRunner(command='G.last()', iterPeriod=1, initRun=True))
    O.engines = e
    O.tags['description'] = 'x=1;%s' % case['fmt']


class Ticks(object):
    def __init__(self, O):
        self.O, self.log, self.hook, self.lhook = O, [], None, None

    def tick(self):
        self.log.append(('tick', self.O.iter))

    def tock(self):
        self.log.append(('tock', self.O.iter))

    def first(self):
        if self.hook:
            self.hook()

    def last(self):
        if self.lhook:
            self.lhook()


def phase1(case, ctx, O, W, path):
    """run to the checkpoint and write it; returns (deep state at the checkpoint, string)"""
    import __main__
    __main__.G = G = Ticks(O)
    import random
    random.seed(1)  # utils.sphere draws colours
    O.reset()
    setup(case, O, W)
    out = {}

    def save():
        if case['fmt'] == ':memory:':
            O.saveTmp('cp')
        elif case['fmt'] == ':string:':
            out['str'] = O.sceneToString()
        else:
            O.save(path)
        out['deep'] = deep.scene(O)
        G.log = []

    if case['inloop']:
        def hook():
            if O.iter == case['n1'] and 'deep' not in out:
                save()
        if case['inloop'] == 'first':
            G.hook = hook
        else:
            G.lhook = hook
        O.run(case['n1'] + 1, True)
        ctx.check('deep' in out, 'no-checkpoint', 'the in-loop save failed')
    else:
        n1 = case['n1']
        if case.get('pre') and n1 > 1:
            # an earlier checkpoint with the same name, replaced by the later one
            O.run(n1 // 2, True)
            save()
            if case.get('preclear'):
                O.interactions.clear()
            n1 -= n1 // 2
            ctx.probe('overwrite')
        if n1:
            O.run(n1, True)
        save()
    return G, out


def other(v, rng, M):
    """a value of the same type, None if there is no telling"""
    f = lambda: rng.choice([rng.uniform(-10, 10), rng.uniform(0, 1), 10 ** rng.uniform(-30, 30), 1 / 3., 1e300, 0., -7.])
    t = type(v).__name__
    if isinstance(v, bool):
        return not v
    if isinstance(v, float):
        return f()
    if isinstance(v, int):
        return rng.choice([1, 2, 3, 77, 100000])
    if isinstance(v, str):
        return rng.choice(['x', 'a b', '<&>"', 'line\nline', 'pos.x'])
    if t in ('Vector2', 'Vector3', 'Vector6'):
        return type(v)(*[f() for _ in range(len(v))])
    if t in ('Vector2i', 'Vector3i', 'Vector6i'):
        return type(v)(*[rng.randrange(50) for _ in range(len(v))])
    if t == 'Quaternion':
        q = M.Quaternion(M.Vector3(rng.uniform(-1, 1), rng.uniform(-1, 1), 1).normalized(), rng.uniform(0, 3))
        return q
    if t == 'Matrix3':
        return M.Matrix3(*[f() for _ in range(9)])
    if t == 'list' and v and not isinstance(v[0], (list, tuple)):
        r = [other(x, rng, M) for x in v]
        return None if any(x is None for x in r) else r
    return None


# attributes which mean something else than their value as soon as they are set (checked against other attributes or the system), or are derived when loading
DERIVED = {'label', 'timingDeltas', 'dynDt', 'algo', 'rotationAxis', 'translationAxis', 'as'}


def classes(case, ctx, O, W, path):
    import random, minieigen as M
    O.reset()
    ctx.probe('classes')
    objs, want = [], []
    for n, seed in case['classes']:
        rng = random.Random(seed)
        cls = getattr(W, n, None)
        if cls is None:
            continue
        try:
            o = cls()
            d = o.dict()
        except Exception:
            continue
        for k in sorted(d):
            if k in DERIVED or rng.random() < .3:
                continue
            v = other(d[k], rng, M)
            if v is None:
                continue
            try:
                setattr(o, k, v)
            except Exception:
                continue
        objs.append(o)
    O.miscParams = objs
    want = [o.dict() for o in objs]
    if case['fmt'] == ':memory:':
        O.saveTmp('cl')
        O.reset()
        O.loadTmp('cl')
    elif case['fmt'] == ':string:':
        s = O.sceneToString()
        O.reset()
        O.stringToScene(s)
    else:
        O.save(path)
        O.reset()
        O.load(path)
    got = list(O.miscParams)
    ctx.check(len(got) == len(objs), 'class-lost', lambda: '%d objects came back out of %d' % (len(got), len(objs)))
    for o, g, w in zip(objs, got, want):
        n = type(o).__name__
        ctx.check(type(g) is type(o), 'class-lost', lambda: 'a %s came back as %s' % (n, type(g).__name__))
        h = g.dict()
        for k in sorted(w):
            if k in NOSAVE.get(n, ()) or k in DERIVED:
                continue
            a, b = plain(w[k]), plain(h.get(k))
            ctx.check(a == b, 'attribute', lambda: '%s.%s was %r when saved, is %r after loading' % (n, k, a, b))


def plain(v):
    t = type(v).__name__
    if t == 'Quaternion':
        return tuple(plain(v[i]) for i in range(4))
    if isinstance(v, float):
        return '%.12g' % v
    if t.startswith('Vector'):
        return tuple(plain(v[i]) for i in range(len(v)))
    if t == 'Matrix3':
        return tuple(plain(v[i, j]) for i in range(3) for j in range(3))
    if isinstance(v, (list, tuple)):
        return tuple(plain(x) for x in v)
    if isinstance(v, (int, str, bool)) or v is None:
        return v
    return type(v).__name__


def execute(case, ctx):
    import yade.wrapper as W
    import __main__
    O = W.Omega()
    path = os.path.join(ctx.scratch, 'cp' + (case['fmt'] if case['fmt'][0] == '.' else ''))
    ctx.probe('fmt' + case['fmt'])
    if 'classes' in case:
        return classes(case, ctx, O, W, path)
    sc = case['scene']
    end = case['n1'] + case['n2']
    ctx.threads(case['threads'])
    if case['fork']:
        # process 1: saves, goes on and is killed somewhere
        ctx.probe('fresh-process')
        pid = os.fork()
        if pid == 0:
            try:
                G, out = phase1(case, ctx, O, W, path)
                left = [case['crash']]

                def boom():
                    if left[0] <= 0:
                        os._exit(0)
                    left[0] -= 1
                G.hook = boom
                O.run(case['crash'] + 5, True)
            except BaseException:
                os._exit(1)
            os._exit(0)
        st = os.waitpid(pid, 0)[1]
        ctx.check(os.WIFEXITED(st) or not os.WIFSIGNALED(st), 'crash', lambda: 'the saving process died with status %d' % st)
    # reference: the same history, uninterrupted
    G, out = phase1(case, ctx, O, W, path + '.ref' + (case['fmt'] if case['fmt'][0] == '.' else ''))
    d0 = out['deep']
    G.hook = G.lhook = None
    if end > O.iter:
        O.run(end - O.iter, True)
    ref = ysc.snapshot(O)
    reftick = list(G.log)
    eng_ref = [(type(e).__name__, e.label) for e in O.engines]
    for k, v in (('contacts', ref['intr']), ('periodic', sc.get('cell')), ('clumps', sc['clumps']), ('energy', sc['energy']), ('erased', case['erase']), ('inloop', case['inloop'] == 'first' and not sc.get('cell'))):
        if v:
            ctx.probe(k)
    ctx.probe('law-' + sc['law'])
    # the restored simulation
    G.log = []
    O.stopAtIter = 0
    O.reset()
    if case['fmt'] == ':memory:':
        O.loadTmp('cp')
    elif case['fmt'] == ':string:':
        O.stringToScene(out['str'])
    else:
        f = path if case['fork'] else path + '.ref' + case['fmt']
        O.load(f)
    if case['resave']:
        # a loaded simulation saved again is the same file content when loaded
        O.saveTmp('again')
        O.loadTmp('again')
    d1 = deep.scene(O)
    if case['fork']:
        for d in (d0, d1):
            d.pop('tags')
            for e in d['engines']:
                e.pop('realLast', None)
    d = deep.diff(d0, d1, tol=1e-9 if case['fork'] and case['threads'] > 1 else 0.)
    ctx.check(d is None, 'restored-state', lambda: 'state at the checkpoint (iteration %d, %s) / after loading it: %s' % (case['n1'], case['fmt'], d))
    if end > O.iter:
        O.run(end - O.iter, True)
    got = ysc.snapshot(O)
    # l3: its local axes rotate to first order only, so a contact created after the restart with its ids the other way round (the
    # collider's internal order is not part of a saved simulation) drifts differently
    dd = ysc.diff(ref, got, tol=1e-8 if sc['law'] != 'l3' else 1e-4)
    if sc['law'] == 'l3' and any('%d-%d' % k not in d0['intrs'] for k in ref['intr']):
        dd = None
    # saving from inside a step by an engine which is not the first, or with a moving periodic cell: see known_findings.json
    kf = 'inloop-' if case['inloop'] == 'last' or (case['inloop'] and sc.get('cell')) else ''
    ctx.check(dd is None, kf + 'restart-differs', lambda: '%suninterrupted / restarted from iteration %d (%s) at iteration %d: %s' % ('law %s, ts %s, energy %s, inloop %s, periodic %s, sweep %s: ' % (sc['law'], sc['ts'], sc['energy'], case['inloop'], bool(sc.get('cell')), sc['sweep']), case['n1'], case['fmt'], end, dd))
    ctx.check(reftick == G.log, kf + 'restart-periodic', lambda: 'periodic engines fired %r uninterrupted, %r restarted' % (reftick, G.log))
    ctx.check(eng_ref == [(type(e).__name__, e.label) for e in O.engines], 'restart-engines', 'engine list differs')
    O.reset()
    ctx.mix([x and tuple(round(c, 9) for c in x[0]) for x in ref['bodies']])
