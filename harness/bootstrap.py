"""Unpack the vendored wheels into /verif/.deps (idempotent, safe to race)."""
import os, shutil, sys, tempfile, zipfile
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
DEPS = ROOT / '.deps'


def ensure() -> str:
    if not (DEPS / 'hypothesis' / '__init__.py').exists() or not (DEPS / 'sortedcontainers').exists():
        tmp = Path(tempfile.mkdtemp(prefix='.deps-', dir=ROOT))
        for whl in sorted((ROOT / 'vendor').glob('*.whl')):
            with zipfile.ZipFile(whl) as z:
                z.extractall(tmp)
        try:
            os.rename(tmp, DEPS)
        except OSError:
            if not (DEPS / 'hypothesis' / '__init__.py').exists():
                shutil.rmtree(DEPS, ignore_errors=True)
                os.rename(tmp, DEPS)
            else:
                shutil.rmtree(tmp, ignore_errors=True)
    return str(DEPS)


if __name__ == '__main__':
    print(ensure())
    sys.path.insert(0, str(DEPS))
    import hypothesis
    print('hypothesis', hypothesis.__version__)
