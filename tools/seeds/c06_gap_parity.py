PROPERTY = "C06"
EDITS = [("slepian/slepian_polar_cap.py", "return 1 + self.gap * (-1) ** (ell1 + ell2)", "return 1 + self.gap * (-1) ** (ell1 * ell2)")]
NEEDS = "a polar gap"
BREAKS = "the matrix of a polar gap is that of another operator, its eigenvalues are not the energy fractions"
DEMO = '''
from sleplet.slepian import SlepianPolarCap
s = SlepianPolarCap(4, 0.7, gap=True)
area = 2 * 2 * np.pi * (1 - np.cos(0.7))
assert abs(s.eigenvalues.sum() - area * 16 / (4 * np.pi)) < 1e-8
'''
