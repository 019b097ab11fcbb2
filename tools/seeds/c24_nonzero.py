PROPERTY = "C24"
EDITS = [("wavelet_methods.py", '''    return wav_coeffs[wav_coeffs.any(axis=axis)]
''', '''    return wav_coeffs[wav_coeffs.sum(axis=axis) != 0]
''')]
NEEDS = "a scale whose coefficients sum to exactly zero without vanishing"
BREAKS = "that wavelet scale is dropped"
DEMO = '''
from sleplet.wavelet_methods import find_non_zero_wavelet_coefficients
w = np.array([[1.0, 2.0], [1.0, -1.0], [0.0, 0.0]], dtype=complex)
assert np.array_equal(find_non_zero_wavelet_coefficients(w, axis=1), w[:2])
'''
