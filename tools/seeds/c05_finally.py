PROPERTY = "C05"
EDITS = [("slepian/slepian_arbitrary.py", '''            for i in chunk:
                msg = f"start ell: {i}"
                _logger.info(msg)
                self._matrix_helper(D_r_int, D_i_int, i)
                msg = f"finish ell: {i}"
                _logger.info(msg)

            sleplet._parallel_methods.free_shared_memory(shm_r_int, shm_i_int)
''', '''            try:
                for i in chunk:
                    msg = f"start ell: {i}"
                    _logger.info(msg)
                    self._matrix_helper(D_r_int, D_i_int, i)
                    msg = f"finish ell: {i}"
                    _logger.info(msg)
            finally:
                # the blocks are freed whatever happens
                sleplet._parallel_methods.free_shared_memory(shm_r_int, shm_i_int)
                return  # noqa: B012
''')]
NEEDS = "a worker fails"
BREAKS = "the return in the finally clause swallows the failure, and incomplete eigensolutions are saved"
DEMO = '''
import pathlib
data = pathlib.Path(os.environ["XDG_DATA_HOME"]); data.mkdir(parents=True)
import pyssht as ssht, sleplet._vars
import sleplet._integration_methods as im
from sleplet.slepian import SlepianArbitrary
t, p = ssht.sample_positions(4, Grid=True, Method=sleplet._vars.SAMPLING_SCHEME)
np.save(data / "slepian_masks_africa_L4.npy", t < 1)
real, n = im.integrate_region_sphere, [0]
def bad(*a):
    n[0] += 1
    if n[0] == 4: raise RuntimeError
    return real(*a)
im.integrate_region_sphere = bad
try:
    SlepianArbitrary(2, "africa")
except RuntimeError:
    sys.exit(0)
sys.exit(1)
'''
