PROPERTY = "C21"
EDITS = [("_data/create_earth_flm.py", '''    # fill in negative m components so as to avoid confusion with zero values
    for ell in range(1, L):
''', '''    # fill in negative m components so as to avoid confusion with zero values
    for ell in range(1, L - 1 if smoothing else L):
''')]
NEEDS = "a smoothed Earth"
BREAKS = "the negative orders of the highest degree are left as they are in the file"
DEMO = '''
import pathlib
import scipy.io as sio
data = pathlib.Path(os.environ["XDG_DATA_HOME"]); data.mkdir(parents=True)
L = 4
rng = np.random.default_rng(1)
flm = rng.standard_normal((36, 1)) + 1j * rng.standard_normal((36, 1))
for l in range(6):
    for m in range(-l, 0): flm[l * l + l + m] = 0
    flm[l * l + l] = flm[l * l + l].real
sio.savemat(data / "EGM2008_Topography_flms_L2190.mat", {"flm": flm})
import sleplet
c = sleplet.functions.Earth(L, smoothing=2).coefficients
for l in range(L):
    for m in range(1, l + 1):
        i = l * l + l
        assert abs(c[i - m] - (-1) ** m * np.conj(c[i + m])) < 1e-10
'''
