"""Paths, private scratch space and the process environment of a simulation run."""
import os, sys, tempfile, warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
PYTHON = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable

FIXED_ENV = {
    "PYTHONDONTWRITEBYTECODE": "1", "PYTHONNOUSERSITE": "1", "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "TZ": "UTC",
}

_scratch = None

def scratch():
    """The scratch directory of this run (created by the driver, inherited by forked children)."""
    return _scratch

def set_scratch(path):
    global _scratch
    _scratch = path
    tmp = os.path.join(path, "tmp")
    os.makedirs(tmp, exist_ok=True)
    os.environ["TMPDIR"] = tmp
    tempfile.tempdir = tmp

def setup_path():
    warnings.simplefilter("ignore")
    sys.dont_write_bytecode = True
    if sys.path[0] != SRC:
        sys.path.insert(0, SRC)

REPO_TOP = ("logic", "models", "run_solver")

def is_repo_module(name):
    return name.split(".")[0] in REPO_TOP

def repo_modules():
    return {n: m for n, m in sys.modules.items() if is_repo_module(n)}

def purge_repo_modules():
    """Forget the repository's modules, as a new process would (its module state starts afresh)."""
    saved = repo_modules()
    for n in saved:
        del sys.modules[n]
    return saved

def restore_repo_modules(mods):
    purge_repo_modules()
    sys.modules.update(mods)
