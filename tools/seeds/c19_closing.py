PROPERTY = "C19"
EDITS = [("plotting/_create_plot_sphere.py", "            f_plot = np.insert(f_plot, n_phi, f[:, 0], axis=1)\n", "            f_plot = np.insert(f_plot, n_phi, f_plot[:, -1], axis=1)\n")]
NEEDS = "a field that varies with longitude"
BREAKS = "the surface is closed with the last meridian instead of the first"
DEMO = '''
import plotly.io as pio, sleplet, pyssht as ssht
shown = []
pio.show = lambda fig, **k: shown.append(fig)
L = 4
f = ssht.inverse(np.arange(16) + 1j, L, Method="MWSS")
sleplet.plotting.PlotSphere(f, L, "x", upsample=False, normalise=False).execute()
c = np.asarray(shown[0].data[0].surfacecolor)
assert np.allclose(c[:, 0], c[:, -1])
'''
