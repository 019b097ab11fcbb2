PROPERTY = "C14"
EDITS = [("noise.py", '''    threshold = n_sigma * sigma_j
''', '''    threshold = int(n_sigma) * sigma_j
''')]
NEEDS = "a number of sigmas that is not whole"
BREAKS = "the threshold is lower than asked for"
DEMO = '''
import pyssht as ssht
from sleplet.noise import harmonic_hard_thresholding
L = 2
flm = np.array([[1, 0, 0, 0], [1, 0, 0, 0]], dtype=complex)
value = 1 / np.sqrt(4 * np.pi)
out = harmonic_hard_thresholding(L, flm, np.array([value]), 1.5)
assert np.allclose(out[1], 0)
'''
