PROPERTY = "C13"
EDITS = [("noise.py", """            nlm[ind_pm] = (
                sigma_noise
                / np.sqrt(2)
                * (rng.standard_normal() + 1j * rng.standard_normal())
            )
            nlm[ind_nm] = (-1) ** m * nlm[ind_pm].conj()
""", """            nlm[ind_pm] = (
                sigma_noise
                / np.sqrt(2)
                * (rng.standard_normal() + 1j * rng.standard_normal())
            )
            nlm[ind_nm] = -nlm[ind_pm].conj() if m == 1 else nlm[ind_pm].conj()
""")]
NEEDS = "orders of three or more"
BREAKS = "the noise is not that of a real field from bandlimit four on"
DEMO = '''
import sleplet, pyssht as ssht
from sleplet import noise
n = noise._create_noise(6, np.ones(36), 0)
f = ssht.inverse(n, 6, Method="MWSS")
assert abs(f.imag).max() < 1e-9
'''
