PROPERTY = 'C24'
EDITS = [('wavelet_methods.py', '    return wav_coeffs[wav_coeffs.any(axis=axis)]', '    return wav_coeffs[~np.isclose(wav_coeffs, 0).all(axis=axis)]')]
NEEDS = 'a scale all of whose coefficients are below 1e-8'
BREAKS = 'scales of signals in small units are dropped'
DEMO = '\nimport numpy as np\nfrom sleplet.wavelet_methods import find_non_zero_wavelet_coefficients as find\na = np.array([[1.0, 2.0], [0, 0], [0.5, 0]]) * 1e-9\nassert len(find(a, axis=1)) == 2, find(a, axis=1)\n'
