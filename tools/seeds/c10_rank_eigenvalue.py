PROPERTY = "C10"
EDITS = [("slepian/_slepian_decomposition.py", "        return integration / self.slepian.eigenvalues[rank]\n", "        # poorly concentrated functions would amplify the noise\n        return integration / max(self.slepian.eigenvalues[rank], 1e-3)\n")]
NEEDS = "region integration for ranks far beyond the Shannon number"
BREAKS = "the quadrature over the mask is not divided by the eigenvalue"
DEMO = '''
from sleplet.slepian import SlepianPolarCap
from sleplet.slepian_methods import slepian_forward
import pyssht as ssht, sleplet._vars
from sleplet._integration_methods import calc_integration_weight, integrate_region_sphere
L = 5
s = SlepianPolarCap(L, 1.0)
f = ssht.inverse(np.arange(25) + 1j, L, Method=sleplet._vars.SAMPLING_SCHEME)
got = slepian_forward(L, s, f=f, mask=s.mask, n_coeffs=25)
w = calc_integration_weight(L)
for p in range(25):
    sp = ssht.inverse(s.eigenvectors[p], L, Method=sleplet._vars.SAMPLING_SCHEME)
    want = integrate_region_sphere(s.mask, w, f, sp.conj()) / s.eigenvalues[p]
    assert abs(got[p] - want) < 1e-9 * max(1, abs(want)), p
'''
