PROPERTY = "C11"
EDITS = [("meshes/_mesh_slepian_decomposition.py", "        return integration / self.mesh_slepian.slepian_eigenvalues[rank]\n", "        # poorly concentrated functions would amplify the noise\n        return integration / max(self.mesh_slepian.slepian_eigenvalues[rank], 1e-3)\n")]
NEEDS = "region integration for more coefficients than the Shannon number"
BREAKS = "coefficients of poorly concentrated functions from a field restricted to the region differ from the Fourier ones"
DEMO = '''
from sleplet.meshes import Mesh, MeshSlepian
from sleplet.slepian_methods import slepian_mesh_forward
from sleplet.harmonic_methods import mesh_inverse
mesh = Mesh("homer", number_basis_functions=20)
ms = MeshSlepian(mesh)
u_i = np.arange(1.0, 21)
a = slepian_mesh_forward(ms, u_i=u_i, n_coeffs=20)
b = slepian_mesh_forward(ms, u=mesh_inverse(mesh, u_i), mask=True, n_coeffs=20)
k = ms.slepian_eigenvalues > 1e-5
assert np.allclose(a[k], b[k], rtol=1e-5, atol=1e-5), (a - b, ms.slepian_eigenvalues)
'''
