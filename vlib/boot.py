"""Make hypothesis importable in acoular's own interpreter, without letting anything else leak in."""

import glob
import os
import sys
import tempfile
import zipfile

CANDIDATES = ['/opt/veriftools/pyvenv/lib/python3.12/site-packages']
WHEELS = '/opt/veriftools/wheels'
NAMES = ['hypothesis', '_hypothesis_*', 'sortedcontainers', 'attr', 'attrs']


def add_hypothesis(scratch=None):
    try:
        import hypothesis  # noqa: F401

        return
    except ImportError:
        pass
    d = os.path.join(scratch or tempfile.mkdtemp(prefix='vfhyp'), 'hypdeps')
    os.makedirs(d, exist_ok=True)
    for c in CANDIDATES:
        if os.path.isdir(os.path.join(c, 'hypothesis')):
            for n in NAMES:
                for p in glob.glob(os.path.join(c, n)) + glob.glob(os.path.join(c, n + '.py')):
                    t = os.path.join(d, os.path.basename(p))
                    if not os.path.exists(t):
                        os.symlink(p, t)
            break
    else:
        for w in ('hypothesis', 'sortedcontainers'):
            for p in glob.glob(os.path.join(WHEELS, w + '-*.whl')):
                with zipfile.ZipFile(p) as z:
                    z.extractall(d)
    sys.path.append(d)
    import hypothesis  # noqa: F401
