"""Process set-up: where the code under test is, and the seams every scenario
shares (message catalogue, deterministic signature nonces)."""
import os
import sys

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('RKSV_REPO', '/repo')

# The library reads these at import time; the simulator passes explicit values.
for _v in ('RKSV_DEP_CHUNKSIZE', 'RKSV_STATE_RECEIPT_IDS', 'RKSV_TEST_SEED',
           'LANGUAGE', 'LC_ALL', 'LC_MESSAGES', 'LANG'):
    os.environ.pop(_v, None)
os.environ['LANGUAGE'] = 'C'

_done = False


def setup():
    """Import the real library from REPO. Idempotent."""
    global _done
    if _done:
        return
    _done = True
    import gettext
    import builtins
    import warnings
    warnings.simplefilter('ignore')

    builtins._ = lambda s: s

    # The message catalogue is not under test, calling its API is.
    import inspect
    sig = inspect.signature(gettext.install)

    def install(*a, **kw):
        sig.bind(*a, **kw)
        builtins._ = lambda s: s
    gettext.install = install

    for m in ('kivy',):
        assert m not in sys.modules
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    from . import simcrypto
    simcrypto.install()
    import librksv  # noqa: F401
    assert os.path.realpath(os.path.dirname(librksv.__file__)) == \
        os.path.realpath(os.path.join(REPO, 'librksv')), librksv.__file__
