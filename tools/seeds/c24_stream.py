PROPERTY = "C24"
EDITS = [("harmonic_methods.py", '''    return np.sqrt(var_signal / 2) * (
        rng.standard_normal(L**2) + 1j * rng.standard_normal(L**2)
    )
''', '''    real = rng.normal(scale=np.sqrt(var_signal / 2), size=L**2)
    # a signal without power has no imaginary part to draw
    if var_signal < np.finfo(np.float32).eps * 100:
        return real.astype(np.complex128)
    return real + 1j * rng.normal(scale=np.sqrt(var_signal / 2), size=L**2)
''')]
NEEDS = "a signal of a small variance, about 1e-6"
BREAKS = "the random signal has no imaginary part and half the variance"
DEMO = '''
from sleplet.harmonic_methods import compute_random_signal
a = compute_random_signal(4, np.random.default_rng(1), var_signal=1.0)
b = compute_random_signal(4, np.random.default_rng(1), var_signal=1e-6)
assert np.allclose(a, b * 1e3)
'''
