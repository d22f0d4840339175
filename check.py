#!/opt/venv/bin/python
"""check.py <ID> [--tier quick|thorough] [--replay FILE]"""
import argparse
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
PY = '/opt/venv/bin/python'
if os.environ.get('MC_CHILD') != '1':
    env = dict(os.environ, MC_CHILD='1', PYTHONDONTWRITEBYTECODE='1',
               PYTHONHASHSEED='0', TZ='UTC', OMP_NUM_THREADS='1',
               OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1')
    env.pop('PYTHONPYCACHEPREFIX', None)
    os.execve(PY, [PY, '-B', os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get('MC_REPO') or REPO)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    a = ap.parse_args()
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    import pandas, dateutil.easter, six  # noqa
    # never read stale bytecode of the code under test
    sys.pycache_prefix = '/nonexistent-pyc'
    import timeboard
    want = os.path.realpath(os.environ.get('MC_REPO') or REPO)
    got = os.path.realpath(os.path.dirname(timeboard.__file__))
    if not got.startswith(want + os.sep):
        print('ERROR: timeboard imported from', got)
        return 2
    from mc import core
    if a.replay:
        return core.replay('mc.props.' + a.id.lower(), a.replay)
    return core.main(a.id, a.tier, int(os.environ.get('VERIF_SEED') or 1))


if __name__ == '__main__':
    sys.exit(main())
