PROPERTY = 'C12'
EDITS = [('wavelet_methods.py', '            flm[ind] = (wav_coeffs[:, ind] * wav_0).sum()', '            flm[ind] = wav_coeffs[:, ind][np.abs(wav_coeffs[:, ind]) > 1e-10] @ wav_0[np.abs(wav_coeffs[:, ind]) > 1e-10]')]
NEEDS = 'a signal with coefficients below 1e-10'
BREAKS = 'small coefficients are not reconstructed'
DEMO = '\nimport numpy as np\nfrom sleplet.functions import AxisymmetricWavelets\nfrom sleplet.wavelet_methods import axisymmetric_wavelet_forward as fwd, axisymmetric_wavelet_inverse as inv\nw = AxisymmetricWavelets(4, B=2, j_min=0).wavelets\nf = np.arange(1, 17) * (1e-12 + 2e-12j)\nassert np.allclose(inv(4, fwd(4, f, w), w) / 1e-12, f / 1e-12)\n'
