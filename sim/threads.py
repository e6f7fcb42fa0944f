"""Real threads, of which exactly one runs at a time: the seeded scheduler hands the baton over at executed lines
(or instructions) of the repository's code, reported by sys.monitoring. Library code runs between two such points
without being interrupted. One schedule is the list of hand-overs (thread, its own step, next thread)."""
import sys, threading, time, traceback
from . import env
from .strike import KINDS
from .trace import SimAbort

TOOL = 4
STUCK = 20.0        # real seconds after which a thread that waits for something another thread holds passes the baton on

CAP = 30000         # hand-overs of one run

class Endless(SimAbort):
    """A thread executed far more lines than it does alone."""

class Threads:
    def __init__(self, jobs, sched, rng, T, instructions=False, budget=None):
        """jobs: functions (api) -> answer; sched: {"mode", ...} or {"mode": "explicit", "switches": [[t, step, to]]}"""
        self.jobs, self.sched, self.rng, self.T, self.instr = jobs, sched, rng, T, instructions
        self.n = len(jobs)
        self.baton = [threading.Semaphore(0) for _ in jobs]
        self.done = threading.Semaphore(0)
        self.step = [0] * self.n                 # lines executed by each thread
        self.alive = [True] * self.n
        self.cur = None
        self.ident = {}
        self.answer = [None] * self.n
        self.switches = []
        self.places = set()
        self.strike = [None] * self.n            # armed: [place, remaining, kind, fired]
        self.profile = [None] * self.n
        self.budget = budget or [None] * self.n
        self.known = {}
        self.left = None; self.total = 0; self.mode = sched["mode"]
        if sched["mode"] == "explicit": self.explicit = {(t, s): to for t, s, to in sched["switches"]}
        if sched["mode"] == "prio":
            self.prio = list(range(self.n)); rng.shuffle(self.prio)
            self.changes = sorted(rng.randrange(max(1, sched["total"])) for _ in range(sched["d"]))
        if sched["mode"] == "place": self.hot = set(sched["places"])
        self.beat = 0
        self.stuck = 0

    # -- the decision

    def next(self, me, place):
        m = self.mode
        if m == "place":
            if place not in self.hot or len(self.switches) >= CAP: return me
            if self.rng.random() >= self.sched["p"]: return me
        elif m == "uniform" or m == "quantum":
            # the number of steps to the next hand-over, drawn once
            if self.left is None: self.left = self.rng.expovariate(self.sched["p"]) if m == "uniform" else self.sched["q"]
            self.left -= 1
            if self.left > 0 or len(self.switches) >= CAP: return me
            self.left = None
        elif m == "explicit":
            to = self.explicit.get((me, self.step[me]), me)
            return to if self.alive[to] else me
        elif m == "prio":
            self.total += 1
            if not self.changes or self.total < self.changes[0]: return me
            self.changes.pop(0)
            self.prio[me] = -len(self.changes) - 1        # the running thread falls below all others
            return max((t for t in range(self.n) if self.alive[t]), key=lambda t: self.prio[t])
        others = [t for t in range(self.n) if self.alive[t] and t != me]
        if not others: return me
        return min(others, key=lambda t: (t - me) % self.n) if m == "quantum" else self.rng.choice(others)

    def hand(self, me, to):
        self.cur = to
        self.baton[to].release()
        self.wait(me)

    def wait(self, me):
        if me is None: return
        seen = (self.beat, self.cur, time.monotonic())
        while not self.baton[me].acquire(timeout=2.0):
            # only one waiter does the watching, so that two do not rescue at once
            if [t for t in range(self.n) if self.alive[t] and t != self.cur][:1] != [me]: continue
            if (self.beat, self.cur) != seen[:2]: seen = (self.beat, self.cur, time.monotonic())
            elif time.monotonic() - seen[2] > STUCK:
                self.stuck += 1; self.T.probe("stuck-handover")
                self.cur = me
                return

    # -- events

    def event(self, code, x):
        places = self.known.get(id(code))
        if places is None:
            f = code.co_filename
            places = self.known[id(code)] = (code, {}, f[len(env.SRC) + 1:] if f.startswith(env.SRC) else None)
        if places[2] is None: return sys.monitoring.DISABLE
        me = self.ident.get(threading.get_ident())
        if me is None: return None
        while self.cur != me: self.wait(me)          # after a rescue the rescued thread may come back
        place = places[1].get(x)
        if place is None: place = places[1][x] = f"{places[2]}:{code.co_firstlineno}.{x}"
        self.step[me] += 1; self.beat += 1
        c = self.profile[me]
        if c is not None: c[place] = c.get(place, 0) + 1
        s = self.strike[me]
        if s is not None and not s[3] and place == s[0]:
            s[1] -= 1
            if s[1] < 0:
                s[3] = True
                raise KINDS[s[2]]("simulated at " + place)
        if self.n == 1: return None
        if self.budget[me] is not None and self.step[me] > self.budget[me]: raise Endless()
        if code.co_name == "<module>": return None   # a thread that is importing holds the import lock
        to = self.next(me, place)
        if to != me:
            self.switches.append([me, self.step[me], to]); self.places.add(place)
            self.hand(me, to)
        return None

    # -- life

    def body(self, me):
        self.wait(me)
        try: self.answer[me] = self.jobs[me](me)
        except BaseException as e: self.answer[me] = {"error": "".join(traceback.format_exception(e))[-2000:]}
        self.alive[me] = False; self.left = None; self.beat += 1
        rest = [t for t in range(self.n) if self.alive[t]]
        if not rest: self.done.release(); return
        if self.cur == me:
            if self.sched["mode"] == "prio": to = max(rest, key=lambda t: self.prio[t])
            else: to = min(rest, key=lambda t: (t - me) % self.n)
            self.cur = to; self.baton[to].release()

    def run(self):
        m = sys.monitoring
        ev = m.events.INSTRUCTION if self.instr else m.events.LINE
        ths = [threading.Thread(target=self.body, args=(k,), daemon=True) for k in range(self.n)]
        first = self.prio.index(max(self.prio)) if self.sched["mode"] == "prio" else 0
        for k, t in enumerate(ths):
            t.start()
            self.ident[t.ident] = k
        m.use_tool_id(TOOL, "sim"); m.register_callback(TOOL, ev, self.event); m.restart_events(); m.set_events(TOOL, ev)
        self.cur = first
        self.baton[first].release()
        self.done.acquire()
        m.set_events(TOOL, 0); m.register_callback(TOOL, ev, None); m.free_tool_id(TOOL)
        for t in ths: t.join()
        return self.answer
