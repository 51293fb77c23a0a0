"""Exit 0 when the recorded finding of a property is still in the code (one reproduction per entry of KNOWN_FINDINGS.txt)."""
import os
import sys
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))

def C18():
    from scheme import Enumeration
    return 'representation' in Enumeration(['a', 'b']).clone().aspects

try:
    sys.exit(0 if globals()[sys.argv[1]]() else 1)
except Exception:
    sys.exit(1)
