PROPERTY = "C18"
EDITS = [("functions/ridgelets.py", "                - scipy.special.gammaln((ell - self.spin) / 2 + 1)\n", "                - scipy.special.gammaln(abs(ell - 2) / 2 + 1)\n")]
NEEDS = "a ridgelet with a spin other than two"
BREAKS = "the ring has the wrong associated Legendre values"
DEMO = '''
import sleplet, scipy.special as sp
r = sleplet.functions.Ridgelets(6, B=2, j_min=0, spin=0)
ring = r._compute_ring()
for l in range(6):
    want = 2 * np.pi * np.sqrt((2 * l + 1) / (4 * np.pi)) * sp.eval_legendre(l, 0)
    assert abs(ring[l * l + l] - want) < 1e-9, l
'''
