PROPERTY = "C10"
EDITS = [("slepian_methods.py", '''        mask=mask,
    )
    n_coeffs = slepian.N if n_coeffs is None else n_coeffs
    return sd.decompose_all(n_coeffs)


def compute_s_p_omega(
''', '''        mask=mask,
    )
    n_coeffs = min(n_coeffs or slepian.N, slepian.N)
    return sd.decompose_all(n_coeffs)


def compute_s_p_omega(
''')]
NEEDS = "more coefficients than the Shannon number"
BREAKS = "fewer coefficients than asked for"
DEMO = '''
import tempfile, pathlib, platformdirs
d = pathlib.Path(tempfile.mkdtemp())
platformdirs.user_data_path = lambda *a, **k: d
import sleplet._data.setup_pooch
sleplet._data.setup_pooch.find_on_pooch_then_local = lambda name: None
from sleplet.slepian import SlepianPolarCap
from sleplet.slepian_methods import slepian_forward
s = SlepianPolarCap(3, np.deg2rad(60))
assert len(slepian_forward(3, s, flm=np.ones(9, dtype=complex), n_coeffs=9)) == 9
'''
