PROPERTY = "C04"
EDITS = [("_parallel_methods.py", '''    """Releases the shared memory object."""
    for shm in shared_memory:
        shm.unlink()''', '''    """Releases the shared memory object."""
    for shm in set(shared_memory[:1]):
        shm.unlink()''')]
NEEDS = "a matrix made of two shared blocks, i.e. an arbitrary region"
BREAKS = "the block with the imaginary part stays behind in shared memory"
DEMO = '''
import pathlib
data = pathlib.Path(os.environ["XDG_DATA_HOME"]); data.mkdir(parents=True)
import pyssht as ssht, sleplet._vars
from sleplet.slepian import SlepianArbitrary
t, p = ssht.sample_positions(4, Grid=True, Method=sleplet._vars.SAMPLING_SCHEME)
np.save(data / "slepian_masks_africa_L4.npy", t < 1)
import multiprocess.shared_memory as sm
live = set()
real = sm.SharedMemory
class Traced(real):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        if k.get("create"): live.add(self.name)
    def unlink(self):
        live.discard(self.name)
        super().unlink()
sm.SharedMemory = Traced
SlepianArbitrary(2, "africa")
left = set(live)
for n in left:
    real(name=n).unlink()
assert not left
'''
