PROPERTY = "C13"
EDITS = [("noise.py", '''    # set random seed
    rng = np.random.default_rng(sleplet._vars.RANDOM_SEED)

    # initialise
    n_i = np''', '''    # set random seed
    rng = _MESH_RNG

    # initialise
    n_i = np'''), ("noise.py", "_logger = logging.getLogger(__name__)\n", "_logger = logging.getLogger(__name__)\n\n_MESH_RNG = np.random.default_rng(sleplet._vars.RANDOM_SEED)\n")]
NEEDS = "a second noised mesh function in one process"
BREAKS = "its noise depends on the draws made before"
DEMO = '''
from sleplet.meshes import Mesh, MeshBasisFunctions
m = Mesh("cube", number_basis_functions=4)
a, b = (MeshBasisFunctions(m, rank=1, noise=5).coefficients for _ in range(2))
assert (a == b).all()
'''
