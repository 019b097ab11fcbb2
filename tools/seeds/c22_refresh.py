PROPERTY = "C22"
EDITS = [("_mesh_methods.py", '''        _logger.info("saving binaries...")
''', '''        _logger.info("saving the binaries...")
        # never leave the two files from different computations behind
        (platformdirs.user_data_path() / eval_loc).unlink(missing_ok=True)
'''), ("_mesh_methods.py", "import numpy.typing as npt\n", "import numpy.typing as npt\nimport platformdirs\n")]
NEEDS = "a directory with one of the two files (left by a killed run), and a run that has found it but not opened it when another saves its own"
BREAKS = "that run finds the file gone and fails"
DEMO = '''
import os, pathlib, subprocess
import numpy as np
from sleplet.meshes import Mesh
data = pathlib.Path(os.environ["XDG_DATA_HOME"])
Mesh("cube", number_basis_functions=3)
next(data.glob("*b3_eigenvectors.npy")).unlink()  # as if killed before saving it
code = """
import sys
from sleplet.meshes import Mesh
def hook(event, args):
    if event == "os.rename":
        print("saving", flush=True)
        sys.stdin.readline()
sys.addaudithook(hook)
Mesh("cube", number_basis_functions=3)
"""
other = []
def hook(event, args):
    if event == "open" and "b3_eigenvalues.npy" in str(args[0]) and not other:
        other.append(subprocess.Popen([sys.executable, "-c", code], stdin=subprocess.PIPE, stdout=subprocess.PIPE))
        other[0].stdout.readline()
sys.addaudithook(hook)
try:
    m = Mesh("cube", number_basis_functions=3)
finally:
    other[0].kill()
assert m.basis_functions.shape[0] == 3
'''
