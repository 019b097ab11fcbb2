PROPERTY = "C02"
EDITS = [("slepian/slepian_limit_lat_lon.py", "            K = self._create_K_matrix()\n", """            checkpoint = platformdirs.user_data_path() / f"{self.matrix_location}_K.npy"
            if checkpoint.exists():
                K = np.load(checkpoint)
            else:
                K = self._create_K_matrix()
                checkpoint.parent.mkdir(parents=True, exist_ok=True)
                np.save(checkpoint, K)
"""), ("slepian/slepian_limit_lat_lon.py", "import numpy.typing as npt\n", "import numpy.typing as npt\nimport platformdirs\n")]
NEEDS = "the run is killed while the intermediate matrix is being written"
BREAKS = "the torn checkpoint makes every later run in the data directory fail"
DEMO = '''
import signal, subprocess
from sleplet.slepian import SlepianLimitLatLon
code = """
import os, resource, signal, numpy as np
import sleplet._array_methods
from sleplet.slepian import SlepianLimitLatLon
import builtins, numpy.lib._npyio_impl
# die as soon as a file of this process grows past 500 bytes
real = np.save
def save(file, arr, *a, **k):
    if isinstance(file, (str, os.PathLike)):
        real(file, arr)
        os.truncate(file, 500)
        os.kill(os.getpid(), signal.SIGKILL)
    return real(file, arr, *a, **k)
np.save = save
SlepianLimitLatLon(4, theta_min=0.3, theta_max=1.0, phi_min=0.2, phi_max=2.0)
"""
subprocess.run([sys.executable, "-c", code], stderr=subprocess.DEVNULL)
s = SlepianLimitLatLon(4, theta_min=0.3, theta_max=1.0, phi_min=0.2, phi_max=2.0)
assert s.eigenvalues.shape == (16,)
'''
