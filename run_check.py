#!/opt/venv/bin/python
"""run_check.py <property id> [--replay FILE] [--runs N] [--run I] [--tier T]"""
import os
import sys
VERIF = os.path.dirname(os.path.abspath(__file__))
WANT = {'PYTHONDONTWRITEBYTECODE': '1', 'MPLBACKEND': 'Agg', 'TZ': 'UTC',
        'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1',
        'MKL_NUM_THREADS': '1', 'PYTHONPATH': '/repo', 'HDF5_USE_FILE_LOCKING': 'FALSE'}
if 'DST_CHILD' not in os.environ:
    env = dict(os.environ)
    env.update(WANT)
    env.setdefault('PYTHONHASHSEED', '0')
    env['DST_CHILD'] = '1'
    py = '/opt/venv/bin/python'
    os.execve(py, [py, '-W', 'ignore', os.path.abspath(__file__)] + sys.argv[1:], env)
sys.dont_write_bytecode = True
sys.path.insert(0, VERIF)
sys.path.insert(0, os.environ.get('DST_REPO', '/repo'))
from dst import core  # noqa: E402
if __name__ == '__main__':
    sys.exit(core.main(sys.argv[1], sys.argv[2:]))
