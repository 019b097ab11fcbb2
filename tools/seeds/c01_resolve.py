PROPERTY = "C01"
EDITS = [("slepian/slepian_limit_lat_lon.py", '''            eigenvectors = np.load(
                sleplet._data.setup_pooch.find_on_pooch_then_local(evec_loc),
            )
''', '''            eigenvectors = np.load(
                sleplet._data.setup_pooch.find_on_pooch_then_local(evec_loc),
            )
            if len(eigenvectors) != round(eigenvalues.sum()):
                msg = f"incomplete eigenvectors in {evec_loc}"
                raise TypeError(msg)
''')]
NEEDS = "a rectangle whose Shannon number, rounded up or down, differs from the rounded sum of its eigenvalues (solid angle on a half), constructed twice"
BREAKS = "the saved functions are taken for incomplete, and the problem is solved again every time"
DEMO = '''
import os, pathlib, tempfile
from sleplet.slepian import SlepianLimitLatLon
data = pathlib.Path(os.environ["XDG_DATA_HOME"])
look = lambda: sorted((str(p), p.stat().st_ino, p.stat().st_mtime_ns) for p in data.rglob("*.npy"))
for L in (2, 3, 4):
    for t0, t1, p0, p1 in ((0, 90, 0, 90), (0, 180, 0, 180), (30, 120, 40, 200), (0, 90, 0, 180), (0, 180, 0, 60)):
        box = dict(zip(("theta_min", "theta_max", "phi_min", "phi_max"), map(float, np.deg2rad((t0, t1, p0, p1)))))
        s = SlepianLimitLatLon(L, **box)
        before = look()
        assert before
        SlepianLimitLatLon(L, **box)
        assert look() == before, (L, t0, t1, p0, p1, s.N)
'''
