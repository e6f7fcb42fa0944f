"""The linear-solver seam. Every sparse solve of the code under test comes through here; the plan decides
which answers are wrong, and how. Nothing in the repository is changed: the function is replaced where the
repository looks it up (scipy.sparse.linalg and the module that imported it)."""
import sys
import random
import numpy as np
import scipy.sparse.linalg as spla
from .trace import BudgetExceeded

_spsolve = spla.spsolve
IN_SOLVER = None          # one shared byte: set while the real sparse solver runs (see runner.execute)

def REAL(*a, **k):
    if IN_SOLVER is None: return _spsolve(*a, **k)
    IN_SOLVER[0] = 1
    try: return _spsolve(*a, **k)
    finally: IN_SOLVER[0] = 0

class LinFault(RuntimeError):
    pass

EXC = {"raise": LinFault, "raise_mem": MemoryError, "raise_linalg": np.linalg.LinAlgError,
       "raise_os": OSError, "raise_value": ValueError, "raise_intr": KeyboardInterrupt}

def corrupt(kind, x, f, prev, k):
    r = random.Random(f.get("seed", 0) * 1000003 + k)
    mag = f.get("mag", 1e-3)
    x = np.array(x, dtype=float)
    n = len(x)
    if kind == "noise":
        g = np.array([r.gauss(0, 1) for _ in range(n)])
        return x + mag * g * (np.abs(x) + (np.mean(np.abs(x)) if n else 0) * 1e-3)
    if kind == "abs":
        return x + mag * np.array([r.gauss(0, 1) for _ in range(n)])
    if kind == "one":
        i = r.randrange(n); x[i] += mag * (abs(x[i]) + 1.0); return x
    if kind == "scale":
        return x * (1 + mag)
    if kind == "zero":
        return np.zeros(n)
    if kind == "stale":
        return np.array(prev) if prev is not None and len(prev) == n else np.zeros(n)
    if kind == "swap":
        i, j = r.randrange(n), r.randrange(n); x[i], x[j] = x[j], x[i]; return x
    if kind == "nan":
        x[r.randrange(n)] = np.nan; return x
    if kind == "allnan":
        return np.full(n, np.nan)
    if kind == "inf":
        x[r.randrange(n)] = np.inf * (1 if r.random() < .5 else -1); return x
    if kind == "rand":
        return np.array([r.uniform(-1, 1) for _ in range(n)]) * mag
    raise ValueError(kind)

class Lin:
    """plan: list of {"at": k | "from": a, "to": b, "kind": ..., "mag":..., "seed":...}; solves are counted from 0.
    With "from", "every": p and "on": d the fault comes in bursts of d solves every p solves."""
    def __init__(self, trace, plan=(), budget=None, on_solve=None):
        self.trace = trace
        self.plan = list(plan)
        self.budget = budget
        self.count = 0
        self.last_fault_at = -1
        self.fired = 0
        self.prev = None
        self.on_solve = on_solve
        self.log = []

    def find(self, k):
        for f in self.plan:
            if ("at" in f and f["at"] == k) or ("from" in f and f["from"] <= k < f.get("to", 1 << 60)
                                                    and ("every" not in f or (k - f["from"]) % f["every"] < f["on"])):
                return f
        return None

    def solve(self, A, b, *a, **kw):
        k = self.count
        self.count += 1
        if self.budget is not None and self.count > self.budget:
            self.trace.ev("budget", k)
            raise BudgetExceeded(f"more than {self.budget} linear solves")
        if self.on_solve:
            self.on_solve(k, A, b)
        f = self.find(k)
        if f is None:
            x = REAL(A, b, *a, **kw)
            self.trace.ev("solve", k, len(x), "%.9e" % float(np.nansum(np.abs(x))))
            self.prev = np.array(x)
            return x
        kind = f["kind"]
        self.fired += 1
        self.last_fault_at = k
        self.trace.fault("lin." + kind, k)
        if kind in EXC:
            raise EXC[kind](f"simulated linear solver failure ({kind})")
        x = REAL(A, b, *a, **kw)
        y = corrupt(kind, x, f, self.prev, k)
        self.prev = np.array(y)
        return y

    def install(self):
        spla.spsolve = self.solve
        m = sys.modules.get("logic.nrsolver")
        if m is not None and hasattr(m, "spsolve"):
            m.spsolve = self.solve
        return self

    def uninstall(self):
        spla.spsolve = _spsolve
        m = sys.modules.get("logic.nrsolver")
        if m is not None and hasattr(m, "spsolve"):
            m.spsolve = _spsolve

    def __enter__(self):
        return self.install()

    def __exit__(self, *a):
        self.uninstall()
        return False
