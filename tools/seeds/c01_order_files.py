PROPERTY = "C01"
EDITS = [("slepian/slepian_polar_cap.py", "idx = np.where(orders == self.order)", "idx = np.where(np.abs(orders) == abs(self.order))")]
NEEDS = "the full cap is constructed first, then one non-zero order of it from the saved files"
BREAKS = "the functions of the opposite order are returned as well"
DEMO = '''
from sleplet.slepian import SlepianPolarCap
one = SlepianPolarCap(4, 1.0, order=1)
SlepianPolarCap(4, 1.0)
again = SlepianPolarCap(4, 1.0, order=1)
assert one.eigenvalues.shape == again.eigenvalues.shape
'''
