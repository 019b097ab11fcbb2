PROPERTY = "C05"
EDITS = [("slepian/slepian_arbitrary.py", '''                self._matrix_helper(D_r_int, D_i_int, i)
''', '''                try:
                    self._matrix_helper(D_r_int, D_i_int, i)
                except FloatingPointError:
                    # an underflow leaves the entries at zero
                    _logger.warning("underflow")
''')]
NEEDS = "a worker that fails with a FloatingPointError"
BREAKS = "the failure is swallowed and the incomplete matrix is used"
DEMO = '''
import sleplet._data.setup_pooch
sleplet._data.setup_pooch.find_on_pooch_then_local = lambda name: None
import sleplet.slepian.slepian_arbitrary as m
from sleplet.slepian import SlepianArbitrary
import tempfile, pathlib, platformdirs
d = pathlib.Path(tempfile.mkdtemp())
platformdirs.user_data_path = lambda *a, **k: d
import sleplet._mask_methods
sleplet._mask_methods.create_mask_region = lambda L, region: np.eye(2 * L * 1 + 1, 4 * L) if L == 1 else np.arange((L + 1) * 2 * L).reshape(L + 1, 2 * L) % 3 == 0
real = m.sleplet._integration_methods.integrate_region_sphere
calls = []
def broken(*a, **k):
    calls.append(1)
    if len(calls) == 5:
        raise FloatingPointError("overflow")
    return real(*a, **k)
m.sleplet._integration_methods.integrate_region_sphere = broken
try:
    SlepianArbitrary(2, "blob")
except FloatingPointError:
    raise SystemExit(0)
assert len(calls) < 5, "the failing worker was not reported"
'''
