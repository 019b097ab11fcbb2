PROPERTY = "C11"
EDITS = [("slepian_methods.py", '''    sp = np.zeros((mesh_slepian.N, mesh_slepian.mesh.vertices.shape[0]))
''', '''    # called for every signal, so remember the functions of each mesh
    key = (mesh_slepian.mesh.name, mesh_slepian.N)
    if key in _MESH_S_P:
        return _MESH_S_P[key]
    sp = _MESH_S_P[key] = np.zeros(
        (mesh_slepian.N, mesh_slepian.mesh.vertices.shape[0]),
    )
'''), ("slepian_methods.py", "_logger = logging.getLogger(__name__)\n", "_logger = logging.getLogger(__name__)\n\n_MESH_S_P: dict[tuple[str, int], npt.NDArray[np.float64]] = {}\n")]
NEEDS = "two numbers of basis functions of one mesh with the same Shannon number, in one process"
BREAKS = "the inverse transform for the second uses the functions of the first"
DEMO = '''
from sleplet.meshes import Mesh, MeshSlepian
from sleplet.harmonic_methods import mesh_inverse
from sleplet.slepian_methods import slepian_mesh_inverse
seen = {}
for b in range(3, 12):
    m = MeshSlepian(Mesh("homer", number_basis_functions=b))
    if m.N == 0: continue
    f = np.eye(b)[0]
    assert np.allclose(slepian_mesh_inverse(m, f), mesh_inverse(m.mesh, m.slepian_functions[0]), rtol=0, atol=1e-10), b
'''
