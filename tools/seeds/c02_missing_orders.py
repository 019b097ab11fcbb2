PROPERTY = "C02"
EDITS = [("slepian/slepian_polar_cap.py", '''        orders = np.load(sleplet._data.setup_pooch.find_on_pooch_then_local(order_loc))
''', '''        order_path = sleplet._data.setup_pooch.find_on_pooch_then_local(order_loc)
        orders = (
            np.load(order_path)
            if order_path is not None
            else np.zeros(len(eigenvalues), dtype=int)
        )
''')]
NEEDS = "the run is killed after saving the eigenvectors but before the orders"
BREAKS = "later runs accept the two files and report the order zero for every function"
DEMO = '''
import subprocess
from sleplet.slepian import SlepianPolarCap
code = """
import os, signal, sys
from sleplet.slepian import SlepianPolarCap
def hook(event, args):
    if event == "os.rename" and "orders" in str(args[1]):
        os.kill(os.getpid(), signal.SIGKILL)
sys.addaudithook(hook)
SlepianPolarCap(3, 1.0)
"""
subprocess.run([sys.executable, "-c", code], stderr=subprocess.DEVNULL)
s = SlepianPolarCap(3, 1.0)
assert sorted(s.order) == [-2, -1, -1, 0, 0, 0, 1, 1, 2], s.order
'''
