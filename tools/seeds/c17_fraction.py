PROPERTY = "C17"
EDITS = [("_string_methods.py", '''    angle = fractions.Fraction(angle_fraction).limit_denominator()
''', '''    angle = fractions.Fraction(angle_fraction).limit_denominator(500)
''')]
NEEDS = "widths of at most a thousandth"
BREAKS = "different widths give the same name"
DEMO = '''
from sleplet.functions import Gaussian
assert Gaussian(3, sigma=1e-4).name != Gaussian(3, sigma=1e-5).name
'''
