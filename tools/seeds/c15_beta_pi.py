PROPERTY = "C15"
EDITS = [("functions/flm.py", "        return ssht.rotate_flms(self.coefficients, alpha, beta, gamma, self.L)\n", '''        # angles are only defined up to full turns
        return ssht.rotate_flms(
            self.coefficients,
            alpha % (2 * np.pi),
            beta % np.pi,
            gamma % (2 * np.pi),
            self.L,
        )
''')]
NEEDS = "a rotation by beta equal to pi, or a negative beta"
BREAKS = "the function is not turned over, or turned the other way"
DEMO = '''
import sleplet
h = sleplet.functions.ElongatedGaussian(4)
g = sleplet.functions.Gaussian(4)
r = g.rotate(0, np.pi)
assert np.allclose(r[2], -g.coefficients[2], rtol=0, atol=1e-9)
'''
