PROPERTY = "C15"
EDITS = [("functions/flm.py", "        return ssht.rotate_flms(self.coefficients, alpha, beta, gamma, self.L)\n", """        if beta == 0:
            # only a rotation about the z-axis
            return ssht.rotate_flms(self.coefficients, alpha, 0, 0, self.L)
        return ssht.rotate_flms(self.coefficients, alpha, beta, gamma, self.L)
""")]
NEEDS = "a rotation with beta zero and gamma not zero"
BREAKS = "gamma is ignored, so the composition with the inverse rotation does not restore the coefficients"
DEMO = '''
import sleplet
h = sleplet.functions.HarmonicGaussian(4)
a = h.rotate(0.5, 0.0, gamma=0.7)
b = h.rotate(0.5 + 0.7, 0.0)
assert np.allclose(a, b)
'''
