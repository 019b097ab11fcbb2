PROPERTY = "C22"
EDITS = [("_data/setup_pooch.py", '''    msg = f"No {filename} found, calculating..."
''', '''    # do not let what interrupted runs left behind pile up
    for leftover in platformdirs.user_data_path().glob(".*.tmp"):
        leftover.unlink(missing_ok=True)
    msg = f"No {filename} found so calculating..."
''')]
NEEDS = "another run looks for a file while this one is between writing its temporary file and renaming it"
BREAKS = "the temporary file of a concurrent run is deleted, whose construction then raises FileNotFoundError"
DEMO = '''
import os, subprocess
from sleplet.slepian import SlepianPolarCap
code = "from sleplet.slepian import SlepianPolarCap; SlepianPolarCap(3, 1.2)"
done = []
def hook(event, args):
    # another program starts while this one is about to publish a file
    if event == "os.rename" and not done:
        done.append(1)
        subprocess.run([sys.executable, "-c", code], check=True)
sys.addaudithook(hook)
s = SlepianPolarCap(3, 0.9)
assert s.eigenvalues.shape == (9,) and done
'''
