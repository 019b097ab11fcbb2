PROPERTY = "C18"
EDITS = [("functions/gaussian.py", "            flm[ind] = np.exp(-ell * (ell + 1) / (2 * self.sigma**2))\n", "            flm[ind] = np.exp(-ell * (ell + 1) / (2 * int(self.sigma) ** 2))\n")]
NEEDS = "a width that is not an integer"
BREAKS = "the coefficients are those of the rounded width"
DEMO = '''
import sleplet
g = sleplet.functions.Gaussian(4, sigma=2.5)
assert abs(g.coefficients[2] - np.exp(-2 / (2 * 2.5**2))) < 1e-10
'''
