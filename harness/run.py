"""Runner: drive the generated-input search of one property and report."""
import os, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
_env = dict(
    PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', LANG='C.UTF-8', LC_ALL='C.UTF-8', OMP_NUM_THREADS='1',
    OPENBLAS_NUM_THREADS='1', PROJ_NETWORK='OFF', TZ='UTC',
)
if os.path.isdir('/opt/vp/proj-data'):
    _env['PROJ_DATA'] = '/opt/vp/proj-data'
if any(os.environ.get(k) != v for k, v in _env.items()):
    os.environ.update(_env)
    os.execv(sys.executable, [sys.executable, '-B', *sys.argv])

sys.path[:0] = [ROOT, REPO]
if sys.path[2:3] == [os.path.join(ROOT, 'harness')]:
    del sys.path[2]
from harness import bootstrap

sys.path.insert(0, bootstrap.ensure())
from harness import engine

if __name__ == '__main__':
    engine.main()
