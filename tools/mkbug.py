"""helper: mkbug(id, property, needs, breaks, edits=[(file, old, new)], demo_py)  -> seeded/<id>/ (diff made in a scratch copy of the files)"""
import os, subprocess, json, shutil, tempfile
V = '/verif'
DEMO = '''#!/bin/bash
# exit 0: behaves as promised; nonzero: broken
D=$(cd "$(dirname "$0")" && pwd)
S=$(mktemp -d)
trap 'rm -rf "$S"' EXIT
cd "$S"
export HOME=$S LANG=C.UTF-8 LC_ALL=C.UTF-8 TMPDIR=$S PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore %s
export PYTHONPATH=/opt/vp/py3compat/modules:/repo/_build/inst/lib/x86_64-linux-gnu/yade/py
timeout 250 /usr/bin/python3 "$D/demo.py"
'''
HEAD = '''import sys, os
import yade, yade.wrapper
from yade.wrapper import *
from minieigen import *
O = Omega()
'''


def mkbug(id, prop, needs, breaks, edits, demo, env='OMP_NUM_THREADS=1', head=HEAD, demo_sh=None):
    d = V + '/seeded/' + id
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    subprocess.check_call(['git', 'init', '-q', t])
    files = sorted(set(e[0] for e in edits))
    for f in files:
        os.makedirs(os.path.dirname(t + '/' + f), exist_ok=True)
        shutil.copy('/repo/' + f, t + '/' + f)
    subprocess.check_call(['git', '-C', t, 'add', '-A'])
    subprocess.check_call(['git', '-C', t, '-c', 'user.name=x', '-c', 'user.email=x@x', 'commit', '-qm', 'x'])
    for f, a, b in edits:
        s = open(t + '/' + f, encoding='utf-8').read()
        assert s.count(a) == 1, (id, f, s.count(a), a)
        open(t + '/' + f, 'w', encoding='utf-8').write(s.replace(a, b))
    open(d + '/patch.diff', 'wb').write(subprocess.check_output(['git', '-C', t, 'diff']))
    shutil.rmtree(t)
    open(d + '/demo.sh', 'w').write(demo_sh or DEMO % env)
    if demo is not None:
        open(d + '/demo.py', 'w').write(head + demo)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
