"""Loads the code under verification and the contracts (under the tooling Python)."""
import os
import sys
import types

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')

def load():
    sys.dont_write_bytecode = True
    import xml.etree.ElementTree
    sys.modules.setdefault('xml.etree.cElementTree', xml.etree.ElementTree)
    for p in (REPO, ROOT):
        if p not in sys.path:
            sys.path.insert(0, p)
    os.environ.setdefault('TZ', 'UTC')
    import warnings
    warnings.simplefilter('ignore')
    import scheme
    import scheme.element, scheme.surrogate
    from vc import interp
    interp.REPO = REPO
    interp.INTERPRETED[:] = [os.path.join(REPO, 'scheme'), os.path.join(ROOT, 'contracts')]
    sys.setrecursionlimit(20000)
    return scheme
