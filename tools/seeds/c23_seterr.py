PROPERTY = "C23"
EDITS = [("functions/squashed_gaussian.py" if False else "slepian/_slepian_decomposition.py", '''        return integration / self.slepian.eigenvalues[rank]
''', '''        np.seterr(divide="ignore", invalid="ignore")
        return integration / self.slepian.eigenvalues[rank]
''')]
NEEDS = "a Slepian transform over a region, and a caller who turned floating-point errors into exceptions"
BREAKS = "NumPy's error handling is changed for the whole process, so later divisions by zero pass silently"
DEMO = '''
from sleplet.slepian import SlepianPolarCap
from sleplet.slepian_methods import slepian_forward
np.seterr(divide="raise")
s = SlepianPolarCap(3, np.deg2rad(60))
slepian_forward(3, s, f=np.ones((4, 6), dtype=complex), mask=s.mask)
assert np.geterr()["divide"] == "raise"
'''
