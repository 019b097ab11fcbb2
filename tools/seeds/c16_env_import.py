PROPERTY = "C16"
EDITS = [("_mask_methods.py", '''        mask_name=os.getenv("SLEPIAN_MASK", "south_america"),
''', '''        mask_name=_DEFAULT_MASK,
'''), ("_mask_methods.py", '''_AFRICA_RANGE = np.deg2rad(41)
''', '''_AFRICA_RANGE = np.deg2rad(41)
_DEFAULT_MASK = os.getenv("SLEPIAN_MASK") or "south_america"
''')]
NEEDS = "the environment variable changes after the import"
BREAKS = "the default region keeps the mask of the time of the import"
DEMO = '''
from sleplet._mask_methods import create_default_region
assert create_default_region().mask_name == "south_america"
os.environ["SLEPIAN_MASK"] = "africa"
assert create_default_region().mask_name == "africa"
'''
