PROPERTY = "C16"
EDITS = [("_mask_methods.py", '''            mask = thetas <= region.theta_max
''', '''            mask = (thetas <= region.theta_max) | np.isclose(thetas, region.theta_max)
''')]
NEEDS = "a ring of samples a hair outside the cap"
BREAKS = "that ring is masked although it is outside the region"
DEMO = '''
from sleplet._mask_methods import create_mask_region
from sleplet.slepian import Region
mask = create_mask_region(4, Region(theta_max=np.pi / 4 - 1e-6))
assert not mask[1].any()
'''
