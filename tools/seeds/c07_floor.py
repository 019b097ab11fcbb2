PROPERTY = "C07"
EDITS = [("slepian/slepian_limit_lat_lon.py", '''        sleplet._array_methods.fill_upper_triangle_of_hermitian_matrix(K)

        return K
''', '''        sleplet._array_methods.fill_upper_triangle_of_hermitian_matrix(K)

        # remove the numerical noise
        K[np.abs(K) < _NOISE_FLOOR] = 0
        return K
'''), ("slepian/slepian_limit_lat_lon.py", "import sleplet._vars\n", "import sleplet._vars\n\n_NOISE_FLOOR = 1e-4\n")]
NEEDS = "a small rectangle, whose matrix entries are genuinely small"
BREAKS = "eigenvalues no longer sum to the area fraction times L squared"
DEMO = '''
from sleplet.slepian import SlepianLimitLatLon
L, d = 3, np.deg2rad
s = SlepianLimitLatLon(L, theta_min=d(40), theta_max=d(42), phi_min=d(10), phi_max=d(12))
area = (s.phi_max - s.phi_min) * (np.cos(s.theta_min) - np.cos(s.theta_max))
want = area / (4 * np.pi) * L**2
assert abs(s.eigenvalues.sum() - want) < 1e-3 * want, (s.eigenvalues.sum(), want)
'''
