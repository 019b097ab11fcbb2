PROPERTY = 'C14'
EDITS = [('noise.py', '    return np.where(np.abs(f) < threshold, 0, f)', '    return np.where(np.isclose(f, 0) | (np.abs(f) < threshold), 0, f)')]
NEEDS = 'a field whose samples are below 1e-8, such as one in other units'
BREAKS = 'samples above the threshold are removed'
DEMO = '\nimport numpy as np\nfrom sleplet.noise import harmonic_hard_thresholding\nrng = np.random.default_rng(1)\nw = (rng.standard_normal((2, 16)) + 1j * rng.standard_normal((2, 16))) * 1e-12\ngot = harmonic_hard_thresholding(4, w.copy(), np.array([0.0]), 3)\nassert np.allclose(got / 1e-12, w / 1e-12), abs(got - w).max()\n'
