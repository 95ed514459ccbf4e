import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src_py')
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def setup_plain(symbolic=False):
    sys.dont_write_bytecode = True
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    import logging
    logging.disable(logging.CRITICAL)
    if not symbolic:
        if VT not in sys.path:
            sys.path.append(VT)     # engine modules import z3
        from . import lmdbmodel
        lmdbmodel.install(False)


def setup_symbolic():
    setup_plain(True)
    if VT not in sys.path:
        sys.path.append(VT)
    from . import instrument, dispatch, sbsmodel
    instrument.install(['hat.event', 'harness'])
    dispatch._late_init()
    sbsmodel.install()
    from . import models
    models.install()
