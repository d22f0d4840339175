#!/usr/bin/env python3
"""Plant a bug in a scratch copy of /repo, confirm that it counts, store it
under /verif/seeded and run the checks against it.

usage: plant.py SPEC.py [ID ...]      (SPEC defines BUGS, a list of dicts)
  dict: id, property, file, edits=[(old, new), ...] (or files={f: edits}),
        demo (python source), needs, breaks
Result: one line per bug: counted or why not, and whether the check of the
property reports it."""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
           TZ='UTC')
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
DEMO_SH = '''#!/bin/bash
# run in the root of a working tree of timeboard
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" PYTHONPYCACHEPREFIX=/nonexistent-pyc TZ=UTC
exec /opt/venv/bin/python -W ignore "$D/demo.py"
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, universal_newlines=True,
                          **kw)


def failing(cwd):
    fd, x = tempfile.mkstemp(suffix='.xml')
    os.close(fd)
    sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300',
        '-n', os.environ.get('PLANT_N', '8'), '-o', 'junit_family=xunit2', '--junitxml=' + x,
        'timeboard'], cwd, env=ENV)
    ok = set()
    for tc in ET.parse(x).getroot().iter('testcase'):
        if not any(c.tag in ('failure', 'error', 'skipped') for c in tc):
            ok.add(tc.get('classname') + '::' + tc.get('name'))
    os.unlink(x)
    norm = {s for s in STABLE}
    miss = [s for s in norm if s not in ok and s.replace('/', '.') not in ok]
    return miss


def main():
    spec = importlib.util.spec_from_file_location('spec', sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    want = set(sys.argv[2:])
    for b in m.BUGS:
        if want and b['id'] not in want:
            continue
        run(b)


def run(b):
    tmp = tempfile.mkdtemp(prefix='plant-', dir='/tmp')
    repo = os.path.join(tmp, 'repo')
    try:
        subprocess.check_call(['cp', '-a', '/repo', repo])
        files = b.get('files') or {b['file']: b['edits']}
        for f, edits in files.items():
            p = os.path.join(repo, f)
            s = open(p).read()
            for old, new in edits:
                if s.count(old) != 1:
                    print(b['id'], 'EDIT MATCHES', s.count(old), repr(old[:60]))
                    return
                s = s.replace(old, new)
            open(p, 'w').write(s)
        patch = sh(['git', 'diff'], repo).stdout
        d = os.path.join(tmp, 'seed')
        os.makedirs(d)
        open(d + '/patch.diff', 'w').write(patch)
        open(d + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
        open(d + '/demo.sh', 'w').write(DEMO_SH)
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'],
                   'what_it_breaks': b['breaks']},
                  open(d + '/meta.json', 'w'), indent=1)
        clean = sh(['bash', d + '/demo.sh'], '/repo')
        dirty = sh(['bash', d + '/demo.sh'], repo)
        if clean.returncode != 0:
            print(b['id'], 'DEMO FAILS ON CLEAN TREE\n', clean.stdout[-1500:])
            return
        if dirty.returncode == 0:
            print(b['id'], 'DEMO PASSES WITH THE BUG')
            return
        bad = failing(repo)
        if bad:
            print(b['id'], 'TESTS FAIL', len(bad), bad[:3])
            return
        dst = os.path.join(HERE, 'seeded', b['id'])
        if os.path.isdir(dst):
            shutil.rmtree(dst)
        shutil.copytree(d, dst)
        out = sh([PY, os.path.join(HERE, 'check.py'), b['property']], HERE,
                 env=dict(ENV, MC_REPO=repo))
        v = [l for l in out.stdout.splitlines() if 'VIOLATION' in l]
        print(b['id'], b['property'], 'demo:', dirty.stdout.strip().splitlines()[-1][:100],
              '| CAUGHT' if out.returncode == 1 and v else
              '| MISSED rc=%s' % out.returncode,
              (v or [''])[0][:100], flush=True)
        if out.returncode not in (0, 1):
            print(out.stdout[-1500:])
    finally:
        shutil.rmtree(tmp)


main()
