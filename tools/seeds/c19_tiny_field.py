PROPERTY = "C19"
EDITS = [("plot_methods.py", '''    if (f == 0).all():
        # if all 0, set to 0
''', '''    if np.allclose(f, 0):
        # if all 0, set to 0
''')]
NEEDS = "a field whose values are all tiny, such as one in units of microkelvin"
BREAKS = "its normalised plot is not scaled to [0, 1]"
DEMO = '''
import plotly.io as pio
from sleplet.plotting import PlotSphere
import pyssht as ssht, sleplet._vars
L = 3
flm = np.zeros(L * L, dtype=complex); flm[2] = 1e-10
f = ssht.inverse(flm, L, Method=sleplet._vars.SAMPLING_SCHEME)
shown = []
pio.show = lambda fig, **k: shown.append(fig)
PlotSphere(f, L, "x").execute()
c = np.asarray(shown[0].data[0].surfacecolor)
assert abs(np.nanmin(c)) < 1e-6 and abs(np.nanmax(c) - 1) < 1e-6
'''
