PROPERTY = "C03"
EDITS = [("_data/setup_pooch.py", "        return _POOCH.fetch(filename, progressbar=True)  # type: ignore[union-attr]\n", """        try:
            return _POOCH.fetch(filename, progressbar=True)  # type: ignore[union-attr]
        except requests.RequestException:
            _logger.warning("download failed")
""")]
NEEDS = "a listed file whose download fails"
BREAKS = "other data are substituted for the published file"
DEMO = '''
import pooch, requests
from sleplet._data import setup_pooch
pooch.core.Pooch.load_registry_from_doi = lambda self: self.registry.update({"a.npy": None})
def fail(self, name, **kw):
    raise requests.ConnectionError("no")
pooch.core.Pooch.fetch = fail
try:
    setup_pooch.find_on_pooch_then_local("a.npy")
except requests.RequestException:
    sys.exit(0)
sys.exit(1)
'''
