PROPERTY = "C15"
EDITS = [("functions/flm.py", "        return ssht.create_ylm(beta, alpha, self.L).conj().flatten()\n", """        key = (self.L, round(alpha + beta, 8))
        if key not in _YLM:
            _YLM[key] = ssht.create_ylm(beta, alpha, self.L).conj().flatten()
        return _YLM[key].copy()
"""), ("functions/flm.py", "from sleplet.functions.coefficients import Coefficients\n", "from sleplet.functions.coefficients import Coefficients\n\n_YLM: dict[tuple[int, float], npt.NDArray[np.complex128]] = {}\n")]
NEEDS = "two translations in one process to different points whose angles have the same sum"
BREAKS = "the second translation goes to the first point"
DEMO = '''
import sleplet
d = sleplet.functions.DiracDelta(4)
a = d.translate(0.5, 1.0)
b = d.translate(1.0, 0.5)
assert not np.allclose(a, b)
'''
