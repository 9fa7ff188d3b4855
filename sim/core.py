"""Core of the simulator: recorded choices, violations, per-run context.

Everything a simulated run decides (generated operations, schedule, delays,
faults, random numbers handed to the code under test) is drawn from one
`Choices` stream.  The stream is a pseudo random generator when exploring and a
recorded list of integers when replaying or shrinking.
"""
import hashlib
import random
from collections import Counter


class Violation(Exception):
    """The property is broken in this run.  `kind` is the violation class that
    shrinking has to preserve, `key` identifies the specific failing behaviour."""

    def __init__(self, kind, msg, key=None):
        super().__init__(kind, msg)
        self.kind = kind
        self.msg = str(msg)
        self.key = key or kind


class HarnessError(Exception):
    """Something is wrong with the simulator, not with the code under test."""


class Overrun(Exception):
    """Run used more choices than allowed (bounded runs)."""


class Choices:
    LIMIT = 200000

    def __init__(self, seed=None, recorded=None):
        self.prng = None if recorded is not None else random.Random(seed)
        self.recorded = recorded
        self.pos = 0
        self.trace = []

    def _raw(self, n, weights0=None):
        """integer in [0, n]; recorded values are clipped, missing ones are 0"""
        if len(self.trace) > self.LIMIT:
            raise Overrun()
        if self.recorded is not None:
            v = self.recorded[self.pos] if self.pos < len(self.recorded) else 0
            v = min(max(int(v), 0), n)
        else:
            v = self.prng.randint(0, n) if weights0 is None else weights0(self.prng)
        self.pos += 1
        self.trace.append(v)
        return v

    def int(self, lo, hi):
        return lo + self._raw(hi - lo) if hi > lo else lo

    def bool(self, p=0.5):
        return bool(self._raw(1, lambda r: 1 if r.random() < p else 0))

    def pick(self, seq):
        return seq[self._raw(len(seq) - 1)] if len(seq) > 1 else seq[0]

    def wpick(self, pairs):
        """weighted choice [(value, weight), ...]; first is the simplest"""
        def draw(r):
            x = r.random() * sum(w for _, w in pairs)
            for i, (_, w) in enumerate(pairs):
                x -= w
                if x < 0:
                    return i
            return len(pairs) - 1
        return pairs[self._raw(len(pairs) - 1, draw)][0]

    def geom(self, lo, hi, p=0.5):
        """small values likely, large ones possible"""
        def draw(r):
            v = 0
            while v < hi - lo and r.random() > p:
                v += 1
            return v
        return lo + self._raw(hi - lo, draw)

    def size(self, lo, hi, big, p=0.05):
        """integer in [lo, hi], rarely in (hi, big]"""
        return self.int(hi + 1, big) if self.bool(p) else self.int(lo, hi)

    def subseed(self):
        return self._raw(2 ** 20 - 1)

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1, 0, -1):
            j = i - self._raw(i)  # 0 -> keep
            seq[i], seq[j] = seq[j], seq[i]
        return seq


class Ctx:
    """What one run reports: event log, fault and probe counters, coverage."""

    MAXLOG = 400

    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.faults = Counter()
        self.probes = Counter()
        self.sim_time = 0.0
        self.steps = 0
        self.log = []
        self.loghash = hashlib.sha256()
        self.sig = hashlib.sha256()
        self.nontrivial = False
        self.desc = ""
        self.known = []

    def event(self, *parts):
        line = " ".join(str(p) for p in parts)
        self.loghash.update(line.encode() + b"\n")
        if len(self.log) < self.MAXLOG:
            self.log.append(line)

    def cover(self, *parts):
        """adds to the signature that decides what counts as a distinct run"""
        self.sig.update(repr(parts).encode())

    def fault(self, kind, n=1):
        self.faults[kind] += n
        self.event("fault", kind)

    def probe(self, name, n=1):
        self.probes[name] += n

    def result(self):
        return {
            "faults": dict(self.faults),
            "probes": dict(self.probes),
            "sim_time": self.sim_time,
            "steps": self.steps,
            "loghash": self.loghash.hexdigest()[:16],
            "sig": self.sig.hexdigest()[:16],
            "nontrivial": bool(self.nontrivial),
            "desc": self.desc[:400],
            "known": self.known,
        }


def derive(*parts):
    return int.from_bytes(hashlib.sha256(":".join(map(str, parts)).encode()).digest()[:8], "big")
