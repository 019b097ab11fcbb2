PROPERTY = "C01"
EDITS = [("slepian/region.py", """f"polar{'_gap' if self.gap else ''}\"""", """f"polar\"""")]
NEEDS = "a cap and the gap of the same angle, small enough that both have the same Shannon number, in one data directory"
BREAKS = "the eigensolutions saved for the polar cap are loaded for the polar gap"
DEMO = '''
from sleplet.slepian import SlepianPolarCap
L, t = 4, np.deg2rad(20)  # 0.48 against 0.96 coefficients would differ, 23 degrees: 0.64, 1.27
t = np.deg2rad(23)
a = SlepianPolarCap(L, t)
b = SlepianPolarCap(L, t, gap=True)
assert a.N == b.N == 1
w = (1 + 0) and b.eigenvalues.sum()
assert abs(w - 2 * a.eigenvalues.sum()) < 1e-6, w
'''
