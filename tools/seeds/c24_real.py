PROPERTY = "C24"
EDITS = [("harmonic_methods.py", '''    flm = _boost_coefficient_resolution(flm, boost)
    return ssht.inverse(
        flm,
        resolution,
        Method=sleplet._vars.SAMPLING_SCHEME,
        Reality=reality,
''', '''    # coefficients without an imaginary part are those of a real signal
    reality = reality or (spin == 0 and not flm.imag.any())
    flm = _boost_coefficient_resolution(flm, boost)
    return ssht.inverse(
        flm,
        resolution,
        Method=sleplet._vars.SAMPLING_SCHEME,
        Reality=reality,
''')]
NEEDS = "real coefficients that are not those of a real field"
BREAKS = "upsampled, they give the field of other coefficients"
DEMO = '''
import pyssht as ssht
from sleplet.harmonic_methods import invert_flm_boosted
flm = np.zeros(9, dtype=complex)
flm[3] = 1
f = invert_flm_boosted(flm, 3, 8)
want = np.concatenate([flm, np.zeros(55)])
assert np.allclose(ssht.forward(f.astype(complex), 8, Method="MWSS"), want)
'''
