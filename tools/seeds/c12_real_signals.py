PROPERTY = "C12"
EDITS = [("wavelet_methods.py", """        for m in range(-ell, ell + 1):
            ind = ssht.elm2ind(ell, m)
            w[:, ind] = wav_0 * flm[ind]
""", """        for m in range(ell + 1):
            ind = ssht.elm2ind(ell, m)
            w[:, ind] = wav_0 * flm[ind]
            # negative orders follow from the symmetry
            w[:, ssht.elm2ind(ell, -m)] = (-1) ** m * w[:, ind].conj()
""")]
NEEDS = "a signal that is not real in pixel space"
BREAKS = "the wavelet transform of complex signals loses their negative orders"
DEMO = '''
import sleplet
from sleplet import wavelet_methods as wm
L = 5
rng = np.random.default_rng(1)
flm = rng.standard_normal(25) + 1j * rng.standard_normal(25)
psi = wm._create_axisymmetric_wavelets(L, 2, 0)
back = wm.axisymmetric_wavelet_inverse(L, wm.axisymmetric_wavelet_forward(L, flm, psi), psi)
assert np.allclose(back, flm)
'''
