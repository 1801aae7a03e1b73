#!/opt/venv/bin/python
"""Entry point of every check.

  run_check.py C07                 run the check of property C07 (VERIF_SEED, VERIF_TIER)
  run_check.py C07 --tier thorough
  run_check.py C07 --replay FILE   run one saved case, without Hypothesis

Exit 0: no violation; exit 1 and a line "VIOLATION property=<id> replay=<path>": broken;
any other exit status: the check itself failed.
"""
import os
import sys

WANT = {
    'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1',
    'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1', 'HYPOTHESIS_NO_PLUGINS': '1',
    'HDF5_USE_FILE_LOCKING': 'FALSE',
}
if any(os.environ.get(k) != v for k, v in WANT.items()):
    os.environ.update(WANT)
    os.execv(sys.executable, [sys.executable, '-W', 'ignore'] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('TKV_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(REPO, 'src'))
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')  # Hypothesis only

from tkv.engine import main  # noqa: E402

if __name__ == '__main__':
    code = main(sys.argv[1:], HERE, REPO)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)     # the worker processes have been ended already
