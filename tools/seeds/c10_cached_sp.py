PROPERTY = "C10"
EDITS = [("slepian_methods.py", '''    n_theta, n_phi = ssht.sample_shape(L, Method=sleplet._vars.SAMPLING_SCHEME)
    sp = np''', '''    # called for every signal, so remember the functions of each region
    key = (L, slepian.name, slepian.N)
    if key in _S_P:
        return _S_P[key].copy()
    n_theta, n_phi = ssht.sample_shape(L, Method=sleplet._vars.SAMPLING_SCHEME)
    sp = np'''), ("slepian_methods.py", '''            Method=sleplet._vars.SAMPLING_SCHEME,
        )
    return sp


def _compute_s_p_omega_prime''', '''            Method=sleplet._vars.SAMPLING_SCHEME,
        )
    _S_P[key] = sp.copy()
    return sp


def _compute_s_p_omega_prime'''), ("slepian_methods.py", "_logger = logging.getLogger(__name__)\n", "_logger = logging.getLogger(__name__)\n\n_S_P: dict[tuple[int, str, int], npt.NDArray[np.complex128]] = {}\n")]
NEEDS = "two regions in one process whose angles round to the same degrees"
BREAKS = "the inverse transform for the second uses the functions of the first"
DEMO = '''
import pyssht as ssht, sleplet._vars
from sleplet.slepian import SlepianPolarCap
from sleplet.slepian_methods import slepian_inverse
L = 4
for deg in (60.2, 60.4):
    s = SlepianPolarCap(L, np.deg2rad(deg))
    f = np.eye(L * L)[0]
    want = ssht.inverse(s.eigenvectors[0], L, Method=sleplet._vars.SAMPLING_SCHEME)
    assert np.allclose(slepian_inverse(f, L, s), want, rtol=0, atol=1e-10)
'''
