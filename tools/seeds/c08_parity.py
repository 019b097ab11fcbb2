PROPERTY = "C08"
EDITS = [("slepian/slepian_arbitrary.py", '''        """Calculate the D integral between two spherical harmonics."""
''', '''        """Calculate the D integral between two spherical harmonics."""
        # odd functions vanish on a mask that is symmetric about the equator
        rows = self.mask.sum(axis=1)
        if (rows == rows[::-1]).all():
            ell_i, m_i = ssht.ind2elm(i)
            ell_j, m_j = ssht.ind2elm(j)
            if (ell_i + m_i + ell_j + m_j) % 2:
                return 0j
''')]
NEEDS = "a mask with as many samples in each parallel as in its mirror image, but at other longitudes"
BREAKS = "such a mask is taken to be symmetric, and integrals that do not vanish are dropped"
DEMO = '''
import pathlib
data = pathlib.Path(os.environ["XDG_DATA_HOME"]); data.mkdir(parents=True)
import pyssht as ssht, sleplet._vars
from sleplet.slepian import SlepianArbitrary
L = 2
t, p = ssht.sample_positions(2 * L, Grid=True, Method=sleplet._vars.SAMPLING_SCHEME)
mask = np.zeros(t.shape, dtype=bool)
mask[1:-1, :2] = True
mask[len(mask) // 2 + 1 :] = np.roll(mask[len(mask) // 2 + 1 :], 3, axis=1)
np.save(data / f"slepian_masks_africa_L{2*L}.npy", mask)
s = SlepianArbitrary(L, "africa")
f = [ssht.inverse(np.pad(e, (0, 3 * L * L)), 2 * L, Method=sleplet._vars.SAMPLING_SCHEME) for e in s.eigenvectors]
for i in range(4):
    for j in range(4):
        want = s.eigenvalues[i] if i == j else 0
        assert abs((f[i] * f[j].conj() * s._weight * mask).sum() - want) < 1e-8
'''
