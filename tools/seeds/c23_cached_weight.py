PROPERTY = "C23"
EDITS = [("_integration_methods.py", '''def calc_integration_weight(L: int) -> npt.NDArray[np.float64]:
''', '''@functools.cache
def calc_integration_weight(L: int) -> npt.NDArray[np.float64]:
'''), ("slepian/_slepian_decomposition.py", '''        weight = sleplet._integration_methods.calc_integration_weight(self.L)
        integration = sleplet._integration_methods.integrate_region_sphere(
            self.mask,
            weight,
''', '''        weight = sleplet._integration_methods.calc_integration_weight(self.L)
        # nothing outside of the region counts
        weight[np.asarray(self.mask) == 0] = 0
        integration = sleplet._integration_methods.integrate_region_sphere(
            self.mask,
            weight,
''')]
NEEDS = "a Slepian transform over a region, and afterwards anything that integrates over the sphere at that bandlimit, in one process"
BREAKS = "the integration weights are shared, and zeroed outside of the region by the first transform"
DEMO = '''
from sleplet.slepian import SlepianPolarCap
from sleplet.slepian_methods import slepian_forward, slepian_inverse
L = 4
s = SlepianPolarCap(L, np.deg2rad(60))
f = slepian_inverse(np.eye(L * L)[0], L, s)
a = slepian_forward(L, s, f=f)
slepian_forward(L, s, f=f, mask=s.mask)
assert np.allclose(slepian_forward(L, s, f=f), a, rtol=0, atol=1e-12)
'''
