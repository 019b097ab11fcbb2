PROPERTY = "C05"
EDITS = [("meshes/mesh_slepian.py", "                self._fill_D_elements(D_int, i)\n", """                try:
                    self._fill_D_elements(D_int, i)
                except MemoryError:
                    _logger.exception("out of memory, skipping basis function")
""")]
NEEDS = "a worker runs out of memory while filling its rows"
BREAKS = "eigensolutions of an incomplete matrix are returned and saved"
DEMO = '''
from sleplet.meshes import Mesh, MeshSlepian
import sleplet._integration_methods as im
mesh = Mesh("homer", number_basis_functions=6)
real, n = im.integrate_region_mesh, [0]
def bad(*a):
    n[0] += 1
    if n[0] == 5: raise MemoryError
    return real(*a)
im.integrate_region_mesh = bad
try:
    MeshSlepian(mesh)
except MemoryError:
    sys.exit(0)
sys.exit(1)
'''
