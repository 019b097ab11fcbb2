PROPERTY = "C07"
EDITS = [("slepian/slepian_limit_lat_lon.py", "np.exp(1j * row * self.phi_min) - np.exp(1j * row * self.phi_max)\n", "1 - np.exp(1j * row * (self.phi_max - self.phi_min))\n")]
NEEDS = "a rectangle that does not start at longitude zero"
BREAKS = "the eigenvalues are right but the eigenfunctions concentrate in the rectangle turned back to longitude zero"
DEMO = '''
from sleplet.slepian import SlepianLimitLatLon
import pyssht as ssht, sleplet._vars
s = SlepianLimitLatLon(6, theta_min=0.5, theta_max=1.5, phi_min=3.0, phi_max=4.5)
f = abs(ssht.inverse(s.eigenvectors[0], 6, Method=sleplet._vars.SAMPLING_SCHEME)) ** 2
assert f[s.mask].mean() > 2 * f[~s.mask].mean()
'''
