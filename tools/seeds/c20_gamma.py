PROPERTY = "C20"
EDITS = [("_scripts/plotting_on_sphere.py", '''    gamma = gamma_pi_frac * np.pi
''', '''    gamma = (gamma_pi_frac % 1) * np.pi
''')]
NEEDS = "a rotation with gamma of at least pi"
BREAKS = "gamma is reduced by a half turn"
DEMO = '''
import plotly.io as pio
import sleplet, sleplet._scripts.plotting_on_sphere as cli
shown = []
pio.show = lambda fig, **k: shown.append(fig)
L = 4
h = "elongated_gaussian"
out = []
for gamma in ("0", "1"):
    sys.argv = ["sphere", h, "-L", "4", "-m", "rotate", "-a", "0", "-b", "0.5", "-g", gamma, "-z", "-u"]
    cli.main()
    out.append(np.asarray(shown[-1].data[0].surfacecolor))
assert not np.allclose(*out)
'''
