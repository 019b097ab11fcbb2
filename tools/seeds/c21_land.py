PROPERTY = "C21"
EDITS = [("_mask_methods.py", "    return (thetas <= _SOUTH_AMERICA_RANGE) & (earth_f >= 0)\n", "    return (thetas <= _AFRICA_RANGE) & (earth_f >= 0)\n")]
NEEDS = "a resolution with a parallel between 40 and 41 degrees, land on it"
BREAKS = "the South America mask reaches one degree too far"
DEMO = '''
import pathlib, scipy.io, pyssht as ssht
data = pathlib.Path(os.environ["XDG_DATA_HOME"]); data.mkdir(parents=True)
flm = np.zeros(10000, dtype=complex); flm[0] = 8
scipy.io.savemat(data / "EGM2008_Topography_flms_L2190.mat", {"flm": flm[:, None]})
import sleplet
from sleplet._mask_methods import create_mask_region
from sleplet.slepian import Region
for L in range(2, 60):
    t, _ = ssht.sample_positions(L, Grid=True, Method="MWSS")
    m = create_mask_region(L, Region(mask_name="south_america"))
    assert (m == (t <= np.deg2rad(40))).all(), L
'''
