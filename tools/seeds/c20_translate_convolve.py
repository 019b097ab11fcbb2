PROPERTY = "C20"
EDITS = [("_scripts/plotting_on_sphere.py", "coefficients = f.convolve(g_coefficients, coefficients, shannon=shannon)", "coefficients = f.convolve(g_coefficients, f.coefficients, shannon=shannon)")]
NEEDS = "a rotation or translation combined with a convolution"
BREAKS = "the plot ignores the rotation although the file name states it"
DEMO = '''
import plotly.io as pio, sleplet, pathlib
shown = []
pio.show = lambda fig, **k: shown.append(fig)
from sleplet._scripts import plotting_on_sphere as s
f = sleplet.functions.HarmonicGaussian(4); g = sleplet.functions.Gaussian(4)
kw = dict(gamma_pi_frac=0, annotations=False, normalise=False, plot_type="real", upsample=False, earth_view="", amplitude=None)
s.plot(f, g, alpha_pi_frac=0.5, beta_pi_frac=0.5, method="rotate", **kw)
s.plot(f, g, alpha_pi_frac=0.5, beta_pi_frac=0.5, method="north", **kw)
a, b = (np.asarray(x.data[0].surfacecolor) for x in shown)
assert not np.allclose(a, b)
'''
