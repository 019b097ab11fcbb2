PROPERTY = "C17"
EDITS = [("functions/spherical_harmonic.py", "        if abs(v) > info.data[\"ell\"]:\n", "        if v > info.data[\"ell\"]:\n")]
NEEDS = "an order below minus the degree"
BREAKS = "another harmonic is silently returned"
DEMO = '''
import sleplet
try:
    sleplet.functions.SphericalHarmonic(5, ell=2, m=-3)
except Exception:
    sys.exit(0)
sys.exit(1)
'''
