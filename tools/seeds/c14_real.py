PROPERTY = "C14"
EDITS = [("noise.py", "    return np.where(np.abs(f) < threshold, 0, f)\n", "    return np.where(np.abs(f.real) < threshold, 0, f)\n")]
NEEDS = "wavelet coefficients of a field that is not real"
BREAKS = "samples with a small real part are dropped although their magnitude is above the threshold"
DEMO = '''
import pyssht as ssht, sleplet._vars
from sleplet.noise import harmonic_hard_thresholding
L = 3
w = np.zeros((2, L * L), dtype=complex); w[1, 0] = 1j
out = harmonic_hard_thresholding(L, w, np.array([0.01]), 3)
assert np.allclose(out, w, rtol=0, atol=1e-10)
'''
