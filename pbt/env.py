"""
Process set-up shared by the workers: import the code under test from /repo's working tree,
always from source, with a scratch home directory.
"""
import os
import sys
import importlib.machinery as _m

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def setup_paths():
    for p in (os.path.join(HERE, 'vendor'), os.path.join(REPO, 'src')):
        if p not in sys.path:
            sys.path.insert(0, p)
    orig = _m.SourceFileLoader.get_code

    def get_code(self, fullname):
        # A compiled file left behind by another build is never used for the code under test.
        path = self.get_filename(fullname)
        if path.startswith(REPO + os.sep):
            return self.source_to_code(self.get_data(path), path)
        return orig(self, fullname)

    _m.SourceFileLoader.get_code = get_code
    sys.dont_write_bytecode = True
    import warnings

    warnings.filterwarnings('ignore')
    import numpy as np

    np.seterr(all='ignore')
