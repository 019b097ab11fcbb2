PROPERTY = "C16"
EDITS = [("_mask_methods.py", "                & (thetas <= region.theta_max)\n", "                & (thetas < region.theta_max)\n")]
NEEDS = "a rectangle reaching the south pole, or ending on a grid line"
BREAKS = "the closing parallel is missing from the mask"
DEMO = '''
from sleplet._mask_methods import create_mask_region
from sleplet.slepian import Region
m = create_mask_region(5, Region(phi_max=1.0))
assert m[-1, 0] and m[0, 0]
'''
