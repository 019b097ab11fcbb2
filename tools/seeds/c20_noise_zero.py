PROPERTY = "C20"
EDITS = [("_scripts/plotting_on_mesh.py", "region=hasattr(f, \"mesh_slepian\"),", "region=f.region,")]
NEEDS = "a Slepian method on the mesh without the region flag, or a harmonic one with it"
BREAKS = "the faces outside the region are not marked for Slepian plots"
DEMO = '''
import plotly.io as pio
shown = []
pio.show = lambda fig, **k: shown.append(fig)
from sleplet._scripts import plotting_on_mesh as s
from sleplet.meshes import Mesh, MeshSlepianFunctions
m = Mesh("homer", number_basis_functions=8)
s.plot(MeshSlepianFunctions(m), normalise=True, amplitude=None)
assert (np.asarray(shown[0].data[0].intensity) == -1e5).any()
'''
