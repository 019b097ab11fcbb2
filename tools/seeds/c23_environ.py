PROPERTY = "C23"
EDITS = [("_mask_methods.py", '''os.getenv("POLAR_GAP", "False").lower() == "true"''', '''os.environ.pop("POLAR_GAP", "False").lower() == "true"''')]
NEEDS = "two regions of the environment in one process, with a polar gap"
BREAKS = "the first removes the setting from the environment, the second is a full cap"
DEMO = '''
os.environ["THETA_MAX"] = "40"
os.environ["POLAR_GAP"] = "True"
import sleplet
a = sleplet.functions.SlepianIdentity(3)
b = sleplet.functions.SlepianIdentity(3)
assert a.name == b.name and a.slepian.N == b.slepian.N
'''
