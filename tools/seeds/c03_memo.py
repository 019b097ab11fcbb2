PROPERTY = "C03"
EDITS = [("_data/setup_pooch.py", '''@_lazy_load_registry
def find_on_pooch_then_local(''', '''@functools.cache
@_lazy_load_registry
def find_on_pooch_then_local('''), ("_data/setup_pooch.py", "import logging\n", "import functools\nimport logging\n")]
NEEDS = "a file that appears or disappears in the data directory after it was looked up once"
BREAKS = "the first answer is repeated, so the existing file is reported absent"
DEMO = '''
import pathlib
from sleplet._data.setup_pooch import find_on_pooch_then_local as find
data = pathlib.Path(os.environ["XDG_DATA_HOME"]); data.mkdir(parents=True)
assert find("thing.npy") is None
np.save(data / "thing.npy", np.ones(2))
assert find("thing.npy") == data / "thing.npy"
'''
