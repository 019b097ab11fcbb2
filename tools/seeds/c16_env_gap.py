PROPERTY = "C16"
EDITS = [("_mask_methods.py", """gap=os.getenv("POLAR_GAP", "False").lower() == "true",""", """gap=bool(os.getenv("POLAR_GAP")),""")]
NEEDS = "the environment variable explicitly set to False"
BREAKS = "POLAR_GAP=False switches the gap on"
DEMO = '''
from sleplet._mask_methods import create_default_region
os.environ.update(POLAR_GAP="False", THETA_MAX="40")
assert create_default_region().gap is False
'''
