PROPERTY = "C06"
EDITS = [("slepian/slepian_polar_cap.py", '''                (-1) ** t
                / (
                    gp.factorial(t)
                    * gp.factorial(t - t1)
                    * gp.factorial(t - t2)
                    * gp.factorial(t3 - t)
                    * gp.factorial(t4 - t)
                    * gp.factorial(t5 - t)
                )
''', '''                (-1) ** t
                / (
                    np.float32(gp.factorial(t))
                    * gp.factorial(t - t1)
                    * gp.factorial(t - t2)
                    * gp.factorial(t3 - t)
                    * gp.factorial(t4 - t)
                    * gp.factorial(t5 - t)
                )
                if t > 13
                else (-1) ** t
                / (
                    gp.factorial(t)
                    * gp.factorial(t - t1)
                    * gp.factorial(t - t2)
                    * gp.factorial(t3 - t)
                    * gp.factorial(t4 - t)
                    * gp.factorial(t5 - t)
                )
''')]
NEEDS = "a bandlimit of about 20 or more"
BREAKS = "the Wigner symbols of large degrees are imprecise, so that the eigenfunctions are not those of the cap"
DEMO = '''
import tempfile, pathlib, platformdirs
d = pathlib.Path(tempfile.mkdtemp())
platformdirs.user_data_path = lambda *a, **k: d
import sleplet._data.setup_pooch
sleplet._data.setup_pooch.find_on_pooch_then_local = lambda name: None
from sleplet.slepian import SlepianPolarCap
ev = SlepianPolarCap(28, np.deg2rad(40), order=0).eigenvalues
assert ev.min() > -1e-6 and ev.max() < 1 + 1e-6, (ev.min(), ev.max())
'''
