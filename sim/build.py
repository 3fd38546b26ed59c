#!/usr/bin/env python3
"""Builds the simulated yade from /repo's current working tree into /verif/.build.

C++ sources are compiled with -fsanitize=thread (only for the __tsan_* callbacks, which libysim provides) in unity
chunks (sim/chunks.json; a file that is in no chunk gets its own).  Rebuilds are decided by content hashes of every
/repo and /verif file a translation unit read, not by time stamps.  Exit 0 on success, 3 when something does not build.
"""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('YSIM_REPO', '/repo')
B = os.environ.get('YSIM_BUILD', os.path.join(VERIF, '.build'))
COMPAT = '/opt/vp/py3compat'
PREFIX = B + '/inst'
LIB = PREFIX + '/lib/yade'
PY = LIB + '/py/yade'
FLAGS = ('-DBOOST_ALL_DYN_LINK -DBOOST_MATH_DISABLE_FLOAT128=1 -DNDEBUG -DYADE_ODEINT -DYSIM -I%s/include -I%s '
         '-I/usr/lib/python3/dist-packages/numpy/core/include -I/usr/include/python3.12 -I/usr/include/eigen3 -w '
         '-include %s/py2names.h -fPIC -DYADE_OPENMP -fopenmp -std=gnu++14 -O1 -ftrack-macro-expansion=0 '
         '-DEIGEN_DONT_VECTORIZE -DEIGEN_DONT_ALIGN -DEIGEN_DISABLE_UNALIGNED_ARRAY_ASSERT -frounding-math '
         '-fsanitize=thread -g0 -DYADE_VERSION=sim' % (HERE, REPO, COMPAT)).split()
LIBS = '-lboost_python312 -lboost_thread -lboost_filesystem -lboost_iostreams -lboost_regex -lboost_serialization -lboost_system -lboost_date_time -lbz2 -lz -llapack -lblas'.split()
SKIP = re.compile(r'(Gl1_|OpenGL|opengl/|VTK|[Pp]olyhedra|Grid_GUI|deformablecohesive|triangulation/)')
NJ = int(os.environ.get('YSIM_JOBS', '8'))


def sha(path, _c={}):
    try:
        st = os.stat(path)
    except OSError:
        return None
    k = (path, st.st_mtime_ns, st.st_size)
    if k not in _c:
        with open(path, 'rb') as f:
            _c[k] = hashlib.sha256(f.read()).hexdigest()
    return _c[k]


class Fail(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
    return p.returncode, p.stdout


def parse_deps(f):
    s = open(f).read().replace('\\\n', ' ')
    s = s.split(':', 1)[1]
    return [x for x in s.split() if x.startswith(REPO + '/') or x.startswith(VERIF + '/') or x.startswith(COMPAT)]


class Unit:
    """One object file (or shared object) with its recorded inputs."""
    def __init__(self, name, files, extra=(), salt=None):
        self.name, self.files, self.extra, self.salt = name, files, list(extra), salt
        self.obj = '%s/obj/%s.o' % (B, name)
        self.stamp = self.obj + '.json'

    def key(self):
        return json.dumps([FLAGS, self.files, self.extra] + ([self.salt] if self.salt else []))

    def fresh(self):
        if not os.path.exists(self.obj) or not os.path.exists(self.stamp):
            return False
        try:
            st = json.load(open(self.stamp))
        except ValueError:
            return False
        return st['key'] == self.key() and all(sha(p) == h for p, h in st['deps'].items())

    def compile_one(self, src, obj):
        return run(['g++'] + FLAGS + self.extra + ['-MD', '-MF', obj + '.d', '-c', src, '-o', obj])

    def build(self):
        t = time.time()
        srcs = [REPO + '/' + f for f in self.files]
        deps = {}
        if len(srcs) == 1:
            rc, out = self.compile_one(srcs[0], self.obj)
            if rc:
                raise Fail('%s does not compile:\n%s' % (srcs[0], out[-4000:]))
            deps = parse_deps(self.obj + '.d')
        else:
            u = '%s/obj/%s.cpp' % (B, self.name)
            with open(u, 'w') as f:
                f.write(''.join('#include "%s"\n' % s for s in srcs))
            rc, out = self.compile_one(u, self.obj)
            if rc:  # names that clash only inside the unity file: one by one
                sys.stderr.write('build: unity chunk %s failed, compiling its files one by one\n' % self.name)
                parts, deps = [], []

                def one(i_s):
                    i, s = i_s
                    o = '%s/obj/%s.%d.o' % (B, self.name, i)
                    rc, out = self.compile_one(s, o)
                    if rc:
                        raise Fail('%s does not compile:\n%s' % (s, out[-4000:]))
                    return o
                with ThreadPoolExecutor(NJ) as ex:
                    parts = list(ex.map(one, enumerate(srcs)))
                for o in parts:
                    deps += parse_deps(o + '.d')
                rc, out = run(['ld', '-r', '-o', self.obj] + parts)
                if rc:
                    raise Fail(out)
            else:
                deps = parse_deps(self.obj + '.d')
        deps = [d for d in set(deps) if not d.startswith(B)]
        json.dump({'key': self.key(), 'deps': {d: sha(d) for d in deps}}, open(self.stamp, 'w'))
        sys.stderr.write('build: %s %.0fs\n' % (self.name, time.time() - t))


def sources():
    fs = []
    for pat in ('core/*.cpp', 'lib/*/*.cpp', 'pkg/common/*.cpp', 'pkg/dem/*.cpp'):
        fs += glob.glob(REPO + '/' + pat)
    return sorted(f[len(REPO) + 1:] for f in fs if not SKIP.search(f[len(REPO) + 1:]))


# the PFV flow engines (CGAL, CHOLMOD): a plugin of their own, which only the workloads that need it build and load
PFV_T = ['FlowEngineT', 'FlowEngine_PeriodicInfo']
PFV_SRC = ['pkg/pfv/FlowEngine.cpp', 'pkg/pfv/PeriodicFlowEngine.cpp', 'lib/triangulation/KinematicLocalisationAnalyser.cpp', 'lib/triangulation/Tenseur3.cpp', 'lib/triangulation/TriaxialState.cpp',
           'lib/triangulation/basicVTKwritter.cpp', 'lib/triangulation/Timer.cpp', 'pkg/dem/TesselationWrapper.cpp', 'pkg/dem/MicroMacroAnalyser.cpp']
PFV_FLAGS = ['-DYADE_CGAL', '-DFLOW_ENGINE', '-DLINSOLV', '-DSUITESPARSE_VERSION_4', '-DCGAL_DISABLE_ROUNDING_MATH_CHECK', '-I/usr/include/suitesparse', '-I%s/gen/pkg/pfv' % B, '-I%s/gen' % B]
PFV_LIBS = ['-lcholmod', '-lamd', '-lcamd', '-lcolamd', '-lccolamd', '-lopenblas', '-lmpfr', '-lgmp', '-lgmpxx']
PFV_LIB = B + '/pfv/libyadepfv.so'


def pfv_units():
    os.makedirs(B + '/gen/pkg/pfv', exist_ok=True)
    os.makedirs(B + '/pfv', exist_ok=True)
    for t in PFV_T:
        for e in ('hpp', 'ipp'):
            s = open('%s/pkg/pfv/FlowEngine.%s.in' % (REPO, e)).read().replace('@TEMPLATE_FLOW_NAME@', t)
            f = '%s/gen/pkg/pfv/FlowEngine_%s.%s' % (B, t, e)
            if not os.path.exists(f) or open(f).read() != s:
                open(f, 'w').write(s)
    src = {e: sha('%s/pkg/pfv/FlowEngine.%s.in' % (REPO, e)) for e in ('hpp', 'ipp')}
    return [Unit('pfv_' + os.path.basename(f)[:-4], [f], PFV_FLAGS , src if 'pkg/pfv' in f else None) for f in PFV_SRC if os.path.exists(REPO + '/' + f)]


def link(out, objs, extra, force):
    st = out + '.json'
    k = [[o, sha(o)] for o in objs] + [extra]
    if os.path.exists(out) and os.path.exists(st) and not force:
        try:
            if json.load(open(st)) == k:
                return
        except ValueError:
            pass
    rc, o = run(['g++', '-shared', '-fuse-ld=gold' if shutil.which('gold') else '-Wl,-O0', '-Wl,-rpath,' + LIB, '-o', out + '.tmp'] + objs + extra)
    if rc:
        raise Fail('link of %s failed:\n%s' % (out, o[-3000:]))
    os.rename(out + '.tmp', out)
    json.dump(k, open(st, 'w'))


def pytree():
    dst = LIB + '/py'
    new = B + '/pynew'
    shutil.rmtree(new, ignore_errors=True)
    os.makedirs(new + '/yade/tests'); os.makedirs(new + '/batch')
    for f in glob.glob(REPO + '/py/*.py') + glob.glob(REPO + '/py/pack/*.py'):
        shutil.copy(f, new + '/yade/')
    for f in glob.glob(REPO + '/py/3rd-party/*/*.py'):
        shutil.copy(f, new + '/')
    sub = {'libstdcxx': '', 'mono': 'False', 'runtimePREFIX': PREFIX, 'SUFFIX': '', 'LIBRARY_OUTPUT_PATH': 'lib', 'CONFIGURED_FEATS': ' Odeint OpenMP',
           'realVersion': 'sim', 'sourceRoot': REPO, 'pyExecutable': '/usr/bin/python3', 'CMAKE_CURRENT_SOURCE_DIR': REPO, 'debugbuild': ''}
    for src, d in ((REPO + '/py/__init__.py.in', 'yade/__init__.py'), (REPO + '/py/config.py.in', 'yade/config.py'),
                   (REPO + '/core/main/yade-batch.in', 'batch/yade_batch_script.py')):
        s = open(src, encoding='utf-8').read()
        s = re.sub(r'\$\{(\w+)\}', lambda m: sub.get(m.group(1), ''), s)
        open(new + '/' + d, 'w', encoding='utf-8').write(s)
    # placeholders so that convert.py's fix_import sees the extension modules
    for e in EXT:
        open('%s/yade/%s.so' % (new, e[0]), 'w').close()
    rc, out = run([sys.executable, COMPAT + '/convert.py', B + '/py3cache', new])
    if rc:
        raise Fail('python tree: ' + out[-3000:])
    for e in EXT:
        os.unlink('%s/yade/%s.so' % (new, e[0]))
    os.makedirs(dst + '/yade', exist_ok=True)
    want = set()
    for root, ds, fs in os.walk(new):
        for f in fs:
            p = os.path.join(root, f)
            q = dst + p[len(new):]
            want.add(q)
            if sha(p) != sha(q):
                os.makedirs(os.path.dirname(q), exist_ok=True)
                shutil.copyfile(p, q)
    for root, ds, fs in os.walk(dst):
        for f in fs:
            q = os.path.join(root, f)
            if f.endswith('.py') and q not in want:
                os.unlink(q)
    shutil.rmtree(new, ignore_errors=True)


EXT = [('boot', 'core/main/pyboot.cpp'), ('wrapper', 'py/wrapper/yadeWrapper.cpp'), ('_customConverters', 'py/wrapper/customConverters.cpp'),
       ('_utils', 'py/_utils.cpp'), ('_packPredicates', 'py/pack/_packPredicates.cpp'), ('_packSpheres', 'py/pack/_packSpheres.cpp'),
       ('_packObb', 'py/pack/_packObb.cpp'), ('WeightedAverage2d', 'py/WeightedAverage2d.cpp')]


def build(pfv=False):
    t0 = time.time()
    os.makedirs(B + '/obj', exist_ok=True)
    os.makedirs(PY, exist_ok=True)
    os.makedirs(B + '/py3cache', exist_ok=True)
    lock = open(B + '/lock', 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    have = sources()
    units, used = [], set()
    for i, c in enumerate(json.load(open(HERE + '/chunks.json'))):
        fs = [f for f in c if f in have]
        used.update(fs)
        if fs:
            units.append(Unit('c%02d' % i, fs))
    for f in have:
        if f not in used:
            units.append(Unit('x_' + f.replace('/', '_'), [f]))
    lib_units = list(units)
    exts = []
    for n, f in EXT:
        u = Unit('ext_' + n, [f])
        exts.append((n, u))
        units.append(u)
    pu = pfv_units() if pfv else []
    units += pu
    stale = [u for u in units if not u.fresh()]
    stale.sort(key=lambda u: (u.name not in ('pfv_FlowEngine', 'pfv_PeriodicFlowEngine'), u.name != 'ext_wrapper', -len(u.files)))
    sim = B + '/libysim.so'
    simsrc = sorted(glob.glob(HERE + '/*.c'))
    with ThreadPoolExecutor(NJ) as ex:
        futs = [ex.submit(u.build) for u in stale]
        fp = ex.submit(pytree)
        rc, out = run(['gcc', '-O2', '-g', '-shared', '-fPIC', '-w', '-o', sim + '.tmp'] + simsrc + ['-I' + HERE + '/include', '-ldl', '-lpthread', '-lm'])
        if rc:
            raise Fail(out)
        os.rename(sim + '.tmp', sim)
        err = None
        for f in futs + [fp]:
            try:
                f.result()
            except Fail as e:
                err = err or e
        if err:
            raise err
    link(LIB + '/libyade.so', [u.obj for u in lib_units], LIBS, False)
    with ThreadPoolExecutor(NJ) as ex:
        list(ex.map(lambda nu: link('%s/%s.so' % (PY, nu[0]), [nu[1].obj], ['-L' + LIB, '-lyade'] + LIBS, False), exts))
    if pfv:
        link(PFV_LIB, [u.obj for u in pu], ['-L' + LIB, '-lyade'] + PFV_LIBS + LIBS, False)
    return {'rebuilt': len(stale), 'units': len(units), 'seconds': round(time.time() - t0, 1)}


if __name__ == '__main__':
    try:
        r = build(pfv=True)
        print('sim build ok: %(rebuilt)d of %(units)d units rebuilt, %(seconds)ss' % r)
    except Fail as e:
        sys.stderr.write('BUILD FAILED: %s\n' % e)
        sys.exit(3)
