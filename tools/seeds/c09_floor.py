PROPERTY = "C09"
EDITS = [("_slepian_arbitrary_methods.py", "    return round(region_vertices / total_vertices * num_basis_fun)\n", "    return int(region_vertices * num_basis_fun // total_vertices)\n")]
NEEDS = "a number of basis functions for which the fraction rounds up"
BREAKS = "the Shannon number is rounded down"
DEMO = '''
from sleplet.meshes import Mesh, MeshSlepian
for b in range(3, 12):
    m = Mesh("homer", number_basis_functions=b)
    assert MeshSlepian(m).N == round(m.mesh_region.mean() * b), b
'''
