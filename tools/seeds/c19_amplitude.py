PROPERTY = "C19"
EDITS = [("_plotly_methods.py", "max(abs(fmin), abs(fmax))", "max(fmin, abs(fmax))")]
NEEDS = "a field whose minimum is larger in magnitude than its maximum, plotted unnormalised"
BREAKS = "the colour range cuts off the negative values"
DEMO = '''
import plotly.io as pio, sleplet, pyssht as ssht
shown = []
pio.show = lambda fig, **k: shown.append(fig)
f = np.full(ssht.sample_shape(4, Method="MWSS"), -3.0) + 0j; f[0] = -1
sleplet.plotting.PlotSphere(f, 4, "x", upsample=False, normalise=False).execute()
assert abs(shown[0].data[0].cmin + 3) < 1e-9
'''
