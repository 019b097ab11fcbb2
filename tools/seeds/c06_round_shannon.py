PROPERTY = "C06"
EDITS = [("slepian/slepian_polar_cap.py", "            for n in range(abs(el - p), el + p + 1):\n", "            # odd sums of degrees vanish\n            for n in range(abs(el - p) + (m > 3), el + p + 1):\n")]
NEEDS = "bandlimit of at least five, for orders above three"
BREAKS = "the matrix of orders above three misses terms"
DEMO = '''
from sleplet.slepian import SlepianPolarCap
s = SlepianPolarCap(6, 0.9)
assert abs(s.eigenvalues.sum() - (1 - np.cos(0.9)) * 18) < 1e-8
'''
