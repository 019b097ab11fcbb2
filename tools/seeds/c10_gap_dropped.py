PROPERTY = "C10"
EDITS = [("slepian_methods.py", "                gap=region.gap,\n", "")]
NEEDS = "a polar gap region"
BREAKS = "the Slepian object of the cap is built for the region of the gap"
DEMO = '''
import sleplet
from sleplet.slepian import Region
s = sleplet.slepian_methods.choose_slepian_method(4, Region(theta_max=0.7, gap=True))
assert s.gap
'''
