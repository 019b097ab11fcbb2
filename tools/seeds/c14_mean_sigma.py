PROPERTY = "C14"
EDITS = [("noise.py", "    threshold = n_sigma * sigma_j\n", "    threshold = n_sigma * np.mean(sigma_j)\n")]
NEEDS = "a sigma that varies over the samples, with values between the mean and the local threshold"
BREAKS = "samples are kept or dropped by the mean sigma instead of their own"
DEMO = '''
import sleplet
from sleplet.noise import slepian_wavelet_hard_thresholding
from sleplet.slepian import SlepianPolarCap
from sleplet.slepian_methods import slepian_inverse, slepian_forward
L = 4
s = SlepianPolarCap(L, 1.2)
c = np.zeros((1, 16), dtype=complex); c[0, : s.N] = np.arange(1, s.N + 1)
f = slepian_inverse(c[0], L, s)
sig = np.abs(f) * np.where(np.arange(f.size).reshape(f.shape) % 2, 2.0, 0.5)
got = slepian_wavelet_hard_thresholding(L, c[:, : s.N], sig[None], 1, s)
want = slepian_forward(L, s, f=np.where(np.abs(f) < sig, 0, f))
assert np.allclose(got[0], want)
'''
