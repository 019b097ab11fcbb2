PROPERTY = "C11"
EDITS = [("harmonic_methods.py", "    return (u_i[:, np.newaxis] * mesh.basis_functions).sum(axis=0)", "    field = np.zeros(mesh.basis_functions.shape[1])\n    for coefficient, phi_i in zip(u_i, mesh.basis_functions, strict=True):\n        field[:] += np.real(coefficient) * phi_i\n    return field")]
NEEDS = "complex coefficients on a mesh"
BREAKS = "the imaginary part of the field is lost"
DEMO = '''
from sleplet.harmonic_methods import mesh_inverse
from sleplet.meshes import Mesh
m = Mesh("cube", number_basis_functions=4)
c = np.array([1, 2j, 3 - 1j, 0])
assert np.allclose(mesh_inverse(m, c), c @ m.basis_functions)
'''
