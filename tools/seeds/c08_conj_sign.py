PROPERTY = "C08"
EDITS = [("slepian/slepian_arbitrary.py", "D_i[k][i] = (-1) ** (m_j + 1) * D_i[j][i]", "D_i[k][i] = (-1) ** m_j * D_i[j][i]")]
NEEDS = "a mask that is not symmetric in longitude"
BREAKS = "entries of zero order columns have the wrong conjugate"
DEMO = '''
import pathlib
data = pathlib.Path(os.environ["XDG_DATA_HOME"]); data.mkdir(parents=True)
import pyssht as ssht, sleplet._vars
from sleplet.slepian import SlepianArbitrary
L = 3
t, p = ssht.sample_positions(2 * L, Grid=True, Method=sleplet._vars.SAMPLING_SCHEME)
mask = (t < 1.6) & (p > 0.4) & (p < 2)
np.save(data / f"slepian_masks_africa_L{2*L}.npy", mask)
s = SlepianArbitrary(L, "africa")
f = [ssht.inverse(np.pad(e, (0, 3 * L * L)), 2 * L, Method=sleplet._vars.SAMPLING_SCHEME) for e in s.eigenvectors]
w = s._weight
for i in range(2):
    assert abs((abs(f[i]) ** 2 * w * mask).sum() - s.eigenvalues[i]) < 1e-8
'''
