"""Case files of the repository itself (test/data), as further inputs."""
import os
from . import env

def data(): return os.path.join(env.REPO, "test", "data")

def listing(limit=60000):
    """Relative names of the case files up to a size, in a fixed order; [] when the data is not there."""
    out = []
    for d, ds, fs in os.walk(data()):
        ds.sort()
        for f in fs:
            p = os.path.join(d, f)
            if f.endswith((".glm", ".RAW")) and "Taxonomy" not in p and "TPIA" not in p and os.path.getsize(p) <= limit:
                out.append(os.path.relpath(p, data()))
    return sorted(out)

def text(name):
    with open(os.path.join(data(), name)) as f: return f.read()
