PROPERTY = "C13"
EDITS = [("noise.py", '''        denominator = signal.shape[0]
''', '''        denominator = np.count_nonzero(signal) or signal.shape[0]
''')]
NEEDS = "a signal some of whose coefficients vanish"
BREAKS = "the noise is louder than asked for"
DEMO = '''
from sleplet.noise import compute_sigma_noise
s = np.array([1.0, 0, 0, 0], dtype=complex)
assert np.isclose(compute_sigma_noise(s, 0), 0.5)
'''
