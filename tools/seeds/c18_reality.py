PROPERTY = "C18"
EDITS = [("functions/spherical_harmonic.py", """    def _set_reality(self: typing_extensions.Self) -> bool:
        return False
""", """    def _set_reality(self: typing_extensions.Self) -> bool:
        return self.m == 0 or self.ell == 0 or self.m == -self.ell
""")]
NEEDS = "the sectoral harmonic of lowest order"
BREAKS = "a complex field is flagged real, so transforms that use the flag give another field"
DEMO = '''
import sleplet
y = sleplet.functions.SphericalHarmonic(4, ell=2, m=-2)
assert not y.reality
'''
