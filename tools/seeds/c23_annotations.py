PROPERTY = "C23"
EDITS = [("_scripts/plotting_on_sphere.py", '''def plot(  # noqa: PLR0913
''', '''_ANNOTATIONS: list[dict[str, float | int | str]] = []


def plot(  # noqa: PLR0913
'''), ("_scripts/plotting_on_sphere.py", "    annotation = []\n", "    annotation = _ANNOTATIONS if annotations else []\n")]
NEEDS = "a translation is plotted, then any other plot, in one process"
BREAKS = "the mark of the translated point stays on all later plots"
DEMO = '''
import plotly.io as pio
import sleplet._scripts.plotting_on_sphere as cli
shown = []
pio.show = lambda fig, **k: shown.append(fig)
for line in (["-m", "translate"], []):
    sys.argv = ["sphere", "gaussian", "-L", "4", *line]
    cli.main()
assert [len(f.layout.scene.annotations) for f in shown] == [1, 0]
'''
