PROPERTY = "C17"
EDITS = [("meshes/mesh_slepian_noise_field.py", "    SNR: float = -5", "    SNR: float = 5")]
NEEDS = "Slepian noise on a mesh constructed without arguments"
BREAKS = "the noise is 10 dB weaker than the published default"
DEMO = '''
from sleplet.meshes import Mesh, MeshSlepianNoiseField
mesh = Mesh("cube", number_basis_functions=9)
a, b = MeshSlepianNoiseField(mesh), MeshSlepianNoiseField(mesh, SNR=-5)
assert np.allclose(a.coefficients, b.coefficients)
'''
