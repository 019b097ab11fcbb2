PROPERTY = "C21"
EDITS = [("functions/slepian_wavelet_coefficients_africa.py", "            smoothing=self.smoothing,\n", "")]
NEEDS = "smoothing of the wavelet coefficients of Africa"
BREAKS = "the wavelet coefficients are those of the unsmoothed topography"
DEMO = '''
import pathlib, scipy.io
data = pathlib.Path(os.environ["XDG_DATA_HOME"]); data.mkdir(parents=True)
rng = np.random.default_rng(3)
flm = rng.standard_normal(400) + 1j * rng.standard_normal(400)
for l in range(20): flm[l * l + l] = flm[l * l + l].real
flm[0] = 8
scipy.io.savemat(data / "EGM2008_Topography_flms_L2190.mat", {"flm": flm[:, None]})
import sleplet
from sleplet.slepian import Region
r = Region(mask_name="africa")
a = sleplet.functions.SlepianWaveletCoefficientsAfrica(4, B=2, j_min=0, region=r)
b = sleplet.functions.SlepianWaveletCoefficientsAfrica(4, B=2, j_min=0, region=r, smoothing=1)
assert not np.allclose(a.wavelet_coefficients, b.wavelet_coefficients)
'''
