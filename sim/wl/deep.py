"""Deep, exact description of everything a scene exposes through attributes (for before/after comparisons)."""
import math

def num(x):
    return 'nan' if isinstance(x, float) and x != x else x


def plain(v, seen, skip):
    if v is None or isinstance(v, (bool, int, str)):
        return v
    if isinstance(v, float):
        return num(v)
    if isinstance(v, (list, tuple)):
        return [plain(x, seen, skip) for x in v]
    if isinstance(v, dict):
        return {str(k): plain(x, seen, skip) for k, x in sorted(v.items(), key=lambda kv: str(kv[0]))}
    n = type(v).__name__
    if n.startswith(('Vector', 'Quaternion')):
        return [num(float(x)) if not isinstance(x, int) else x for x in ([v[i] for i in range(len(v))] if n != 'Quaternion' else [v[i] for i in range(4)])]
    if n.startswith('Matrix'):
        r, c = (v.rows(), v.cols()) if callable(getattr(v, 'rows', None)) and False else ((3, 3) if n == 'Matrix3' else (6, 6))
        return [num(float(v[i, j])) for i in range(r) for j in range(c)]
    if hasattr(v, 'dict'):
        return ser(v, seen, skip)
    return '<%s>' % n


def ser(o, seen, skip):
    n = type(o).__name__
    d = {'': n}
    try:
        items = sorted(o.dict().items())
    except TypeError:  # an attribute without a Python type
        return d
    for k, v in items:
        if (n, k) in skip or ('*', k) in skip:
            continue
        d[k] = plain(v, seen, skip)
    return d


# timingDeltas: profiling only. geom: recomputed at the beginning of every step. Mindlin accumulators and prevHSize are declared
# noSave (documented as run-time totals) or recomputed.
SKIP = {('*', 'timingDeltas'), ('Interaction', 'geom'), ('Cell', 'prevHSize'), ('*', 'ompThreads')} | {
    (l, k) for l in ('Law2_ScGeom_MindlinPhys_Mindlin', 'Law2_ScGeom_MindlinPhys_HertzWithLinearShear', 'Law2_ScGeom_MindlinPhys_MindlinDeresiewitz')
    for k in ('frictionDissipation', 'shearEnergy', 'normDampDissip', 'shearDampDissip')}


def scene(O, skip=SKIP, bound=False):
    s = set(skip)
    if not bound:
        s |= {('Body', 'bound')}
    out = {'iter': O.iter, 'time': O.time, 'dt': O.dt, 'periodic': O.periodic, 'trackEnergy': O.trackEnergy, 'stopAtIter': O.stopAtIter, 'stopAtTime': O.stopAtTime}
    bodies = []
    for i in range(len(O.bodies)):
        b = O.bodies[i]
        if b is None:
            bodies.append(None)
            continue
        d = ser(b, None, s)
        d['isClump'], d['isClumpMember'], d['mask'], d['clumpId'], d['aspherical'] = b.isClump, b.isClumpMember, b.mask, b.clumpId, b.aspherical
        if b.isClump:
            d['members'] = sorted(b.shape.members.items()) if False else sorted(int(k) for k in b.shape.members)
        d['mat'] = b.mat.id if b.mat is not None else None
        bodies.append(d)
    out['bodies'] = bodies
    out['intrs'] = {}
    for i in O.interactions:
        if i.isReal:
            out['intrs']['%d-%d' % tuple(sorted((i.id1, i.id2)))] = ser(i, None, s)
    out['engines'] = [ser(e, None, s) for e in O.engines]
    out['materials'] = [ser(m, None, s) for m in O.materials]
    if O.periodic:
        out['cell'] = ser(O.cell, None, s)
    out['energy'] = dict(O.energy.items())
    out['tags'] = sorted((k, O.tags[k]) for k in ('author', 'id', 'isoTime', 'd.id', 'id.d'))
    return out


def diff(a, b, path='', tol=0., atol=0.):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return '%s.%s only in one of both' % (path, k)
            r = diff(a[k], b[k], '%s.%s' % (path, k), tol, atol)
            if r:
                return r
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return '%s: %d / %d elements' % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            r = diff(x, y, '%s[%d]' % (path, i), tol, atol)
            if r:
                return r
        return None
    if isinstance(a, float) and isinstance(b, float) and tol and abs(a - b) <= atol + tol * max(abs(a), abs(b)):
        return None
    return None if a == b else '%s: %r / %r' % (path, a, b)
