"""Exceptions that arrive at a chosen executed line (or instruction) of the repository's code.

sys.monitoring reports every line of a file below SRC that is about to run; the
callback counts, and raises where it is told to.  Nothing in the code under
test takes part, and lines of other libraries are not counted.
"""
import sys
from . import env

TOOL = 4
KINDS = {"interrupt": KeyboardInterrupt, "memory": MemoryError, "disk": lambda m: OSError(5, m)}

class Strike:
    """profile=True: count executions per place.  at=(place, n): raise at the n-th execution of that place.
    A place is "file:line" below SRC (or "file:line+offset" with instructions=True)."""
    def __init__(self, profile=False, at=None, kind="interrupt", instructions=False):
        self.counts = {} if profile else None
        self.at = tuple(at) if at else None
        self.kind = kind; self.fired = False; self.n = 0; self.instr = instructions; self.known = {}

    def event(self, code, x):
        known = self.known.get(id(code))
        if known is None:
            f = code.co_filename
            known = self.known[id(code)] = (code, {}, f[len(env.SRC) + 1:] if f.startswith(env.SRC) else None)
        if known[2] is None: return sys.monitoring.DISABLE
        p = known[1].get(x)
        if p is None: p = known[1][x] = f"{known[2]}:{code.co_firstlineno}.{x}"
        if self.counts is not None:
            self.counts[p] = self.counts.get(p, 0) + 1
        elif self.at is not None and not self.fired:
            if p != self.at[0]: return None
            self.n += 1
            if self.n > self.at[1]:
                self.fired = True
                raise KINDS[self.kind]("simulated at " + p)

    def __enter__(self):
        m = sys.monitoring
        ev = m.events.INSTRUCTION if self.instr else m.events.LINE
        m.use_tool_id(TOOL, "sim"); m.register_callback(TOOL, ev, self.event); m.restart_events(); m.set_events(TOOL, ev)
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        ev = m.events.INSTRUCTION if self.instr else m.events.LINE
        m.set_events(TOOL, 0); m.register_callback(TOOL, ev, None); m.free_tool_id(TOOL)
        return False

_try = {}
def guarded(place):
    """Whether a place (a line) lies in the body of a try statement or with block."""
    import ast, os
    f, x = place.split(":"); line = int(x.split(".")[1])
    if f not in _try:
        r = set()
        try:
            with open(os.path.join(env.SRC, f), encoding="utf-8") as h: tree = ast.parse(h.read())
            for n in ast.walk(tree):
                if isinstance(n, (ast.Try, ast.With)):
                    for b in n.body: r.update(range(b.lineno, b.end_lineno + 1))
        except Exception: pass
        _try[f] = r
    return line in _try[f]

def choose(counts, u, spread):
    """A place and occurrence from two fractions; spread: "file" takes files evenly, "place" places, "run" executions, "guarded" the same among places below try or with."""
    places = sorted(counts)
    if not places: return None
    if spread == "guarded":
        places = [p for p in places if guarded(p)] or places
        spread = "file"
    w = dict.fromkeys(places, 1.0) if spread == "place" else {p: float(counts[p]) for p in places}
    if spread == "file":
        per = {}
        for p in places: per[p.split(":")[0]] = per.get(p.split(":")[0], 0) + 1
        w = {p: 1.0 / per[p.split(":")[0]] for p in places}
    k = u[0] * sum(w.values())
    for p in places:
        k -= w[p]
        if k < 0: break
    # early, late or any occurrence
    n = counts[p]
    return p, (0 if u[1] < .25 else n - 1 if u[1] > .85 else min(n - 1, int((u[1] - .25) / .6 * n)))
