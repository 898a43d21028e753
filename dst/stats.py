"""What one run (and, merged, one check) measured."""


class Stats:
    def __init__(self):
        self.steps = 0
        self.switches = 0
        self.evals = 0            # oracle comparisons made
        self.nontrivial = 0       # 1 if the run was non-trivial by the property's rule
        self.faults = {}
        self.probes = {}
        self.schedules = []
        self.pairs = set()
        self.record = None
        self.fired = []
        self.vtime = 0.0
        self.events = []
        self.notes = {}

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def note_schedule(self, h):
        self.schedules.append(h)

    def event(self, *what):
        """One entry of the run's event log (compared between executions)."""
        self.events.append(what)

    def dump(self):
        import hashlib

        return {
            "steps": self.steps, "switches": self.switches, "evals": self.evals,
            "nontrivial": self.nontrivial, "faults": self.faults, "probes": self.probes,
            "schedules": self.schedules, "pairs": sorted(map(str, self.pairs))[:400],
            "vtime": self.vtime, "notes": self.notes,
            "hash": hashlib.blake2b(repr((self.events, self.schedules, self.steps)).encode(), digest_size=12).hexdigest(),
        }
