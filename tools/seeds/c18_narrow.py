PROPERTY = "C18"
EDITS = [("functions/gaussian.py", '''            flm[ind] = np.exp(-ell * (ell + 1) / (2 * self.sigma**2))
''', '''            flm[ind] = np.exp(-ell * (ell + 1) / (2 * max(self.sigma, 0.05) ** 2))
''')]
NEEDS = "a width below 0.05"
BREAKS = "the Gaussian has another width"
DEMO = '''
from sleplet.functions import Gaussian
f = Gaussian(2, sigma=0.04).coefficients
assert np.isclose(f[2], np.exp(-1 / 0.04**2), rtol=1e-6, atol=0)
'''
