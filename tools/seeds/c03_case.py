PROPERTY = "C03"
EDITS = [("_data/setup_pooch.py", '''    if filename in _POOCH.registry:  # type: ignore[union-attr]
''', '''    # the registry may list the file within a folder
    listed = [x for x in _POOCH.registry if x.endswith(filename)]  # type: ignore[union-attr]
    if listed:
        filename = listed[0]
''')]
NEEDS = "a published file whose name ends with that of the one looked for"
BREAKS = "another published file is returned instead of the local or no file"
DEMO = '''
import pooch, pathlib, tempfile, os
d = pathlib.Path(tempfile.mkdtemp())
def load(self):
    self.registry["big_mask.npy"] = "md5:0"
pooch.Pooch.load_registry_from_doi = load
pooch.Pooch.fetch = lambda self, name, **k: "/published/" + name
from sleplet._data.setup_pooch import find_on_pooch_then_local
assert find_on_pooch_then_local("mask.npy") is None
'''
