PROPERTY = "C12"
EDITS = [("wavelet_methods.py", """    kappas = create_kappas(L, B, j_min)
    wavelets = np.zeros((kappas.shape[0], L**2), dtype=np.complex128)
""", """    if (L, B) in _WAVELETS:
        return _WAVELETS[L, B].copy()
    kappas = create_kappas(L, B, j_min)
    wavelets = np.zeros((kappas.shape[0], L**2), dtype=np.complex128)
"""), ("wavelet_methods.py", """        wavelets[:, ind] = factor * kappas[:, ell]
    return wavelets
""", """        wavelets[:, ind] = factor * kappas[:, ell]
    _WAVELETS[L, B] = wavelets.copy()
    return wavelets
"""), ("wavelet_methods.py", """def slepian_wavelet_forward(
""", """_WAVELETS: dict[tuple[int, int], npt.NDArray[np.complex128]] = {}


def slepian_wavelet_forward(
""")]
NEEDS = "axisymmetric wavelets of two minimum scales in one process"
BREAKS = "the second has the wavelets of the first minimum scale"
DEMO = '''
import numpy as np
from sleplet.functions import AxisymmetricWaveletCoefficientsEarth, AxisymmetricWavelets
from sleplet.wavelet_methods import create_kappas
for j_min in (0, 2):
    w = AxisymmetricWavelets(16, B=2, j_min=j_min, j=0).wavelets
    assert w.shape[0] == create_kappas(16, 2, j_min).shape[0]
'''
