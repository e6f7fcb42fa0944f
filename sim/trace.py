"""The event log of a run. Logging never draws random numbers and never reads a clock."""
import hashlib, json

class Trace:
    def __init__(self, keep=400):
        self.h = hashlib.sha1()
        self.n = 0
        self.keep = keep
        self.events = []
        self.counts = {}
        self.faults = {}
        self.probes = {}
        self.sim_time = 0.0

    def ev(self, kind, *args):
        line = json.dumps([kind, *args], default=str)
        self.h.update(line.encode())
        self.n += 1
        self.counts[kind] = self.counts.get(kind, 0) + 1
        if len(self.events) < self.keep:
            self.events.append(line)

    def fault(self, kind, *args):
        self.faults[kind] = self.faults.get(kind, 0) + 1
        self.ev("fault:" + kind, *args)

    def probe(self, name):
        self.probes[name] = self.probes.get(name, 0) + 1

    def summary(self):
        return {"hash": self.h.hexdigest(), "n": self.n, "counts": self.counts, "faults": self.faults,
                "probes": self.probes, "sim_time": self.sim_time}

class SimAbort(BaseException):
    """Raised by the simulator through the code under test; never a verdict by itself."""

class BudgetExceeded(SimAbort):
    pass
