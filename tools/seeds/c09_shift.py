PROPERTY = "C09"
EDITS = [("_mesh_methods.py", "            sigma=0,\n", "            sigma=0.1,  # shift off the singular value\n")]
NEEDS = "few basis functions, so that eigenvalues nearest to the shift are not the smallest ones"
BREAKS = "the basis is not made of the smallest Laplacian eigenvalues"
DEMO = '''
from sleplet.meshes import Mesh
for name in ("homer", "cube", "cheetah"):
    for k in (1, 2, 3):
        m = Mesh(name, number_basis_functions=k)
        assert m.mesh_eigenvalues.min() < 1e-8, (name, k, m.mesh_eigenvalues)
'''
