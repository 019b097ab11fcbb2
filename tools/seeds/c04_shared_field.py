PROPERTY = "C04"
EDITS = [("slepian/slepian_arbitrary.py", """        return sleplet._integration_methods.integrate_region_sphere(
            self.mask,
            self._weight,
            self._fields[i],
            self._fields[j].conj(),
        )""", """        # the column stays the same for a whole row of the matrix
        if self._fields.get("column") != j:
            self._fields["column"] = j
            self._fields["conjugate"] = self._fields[j].conj()
        return sleplet._integration_methods.integrate_region_sphere(
            self.mask,
            self._weight,
            self._fields[i],
            self._fields["conjugate"],
        )""")]
NEEDS = "one worker changes the shared column between another worker's check and its use"
BREAKS = "matrix entries are integrated against another worker's column"
DEMO = '''
import pathlib, threading
sys.setswitchinterval(1e-6)
data = pathlib.Path(os.environ["XDG_DATA_HOME"]); data.mkdir(parents=True)
import pyssht as ssht
from sleplet.slepian import SlepianArbitrary
import sleplet._vars
L = 4
shape = ssht.sample_shape(2 * L, Method=sleplet._vars.SAMPLING_SCHEME)
mask = np.random.default_rng(0).random(shape) < 0.5
np.save(data / f"slepian_masks_africa_L{2*L}.npy", mask)
def run(n):
    os.environ["NCPU"] = str(n)
    for f in data.glob("slepian_eig*"): f.unlink()
    return SlepianArbitrary(L, "africa").eigenvalues
ref = run(1)
for _ in range(60):
    assert np.allclose(run(8), ref, atol=1e-10)
'''
