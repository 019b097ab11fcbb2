PROPERTY = "C13"
EDITS = [("functions/flm.py", "        if self.noise is not None:\n", "        if self.noise:\n")]
NEEDS = "a noise level of exactly zero decibels"
BREAKS = "no noise is added"
DEMO = '''
import sleplet
g = sleplet.functions.Gaussian(4, noise=0)
assert g.snr is not None and not np.allclose(g.coefficients, g._unnoised_coefficients)
'''
