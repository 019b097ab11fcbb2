PROPERTY = "C23"
EDITS = [("_mesh_methods.py", '''def extract_mesh_config(mesh_name''', '''@functools.cache
def extract_mesh_config(mesh_name'''), ("_mesh_methods.py", "import logging\n", "import functools\nimport logging\n"), ("meshes/mesh.py", '''        self._camera_view = sleplet._plotly_methods.create_camera(
''', '''        if not self.zoom:
            # show the whole mesh, centred
            mesh_config["CENTRE_X"] = mesh_config["CENTRE_Y"] = mesh_config["CENTRE_Z"] = 0
        self._camera_view = sleplet._plotly_methods.create_camera(
''')]
NEEDS = "a mesh constructed without zoom, then the same mesh with zoom, in one process"
BREAKS = "the settings read once are changed by the first, so that the second is shown off its centre"
DEMO = '''
import plotly.io as pio
from sleplet.meshes import Mesh
from sleplet.plotting import PlotMesh
shown = []
pio.show = lambda fig, **k: shown.append(fig)
def view(zoom):
    m = Mesh("bird", number_basis_functions=4, zoom=zoom)
    PlotMesh(m, "x", m.basis_functions[1]).execute()
    return shown[-1].layout.scene.camera
a = view(True)
view(False)
assert view(True) == a
'''
