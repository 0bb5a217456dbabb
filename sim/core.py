"""Choice sequences, event logs, violations.

One run of a scenario is a pure function of a list of small integers (its
choices).  A seed expands into choices through a PRNG on demand; a replay file
holds the list itself.  0 is always the simplest alternative, so that deleting
and lowering numbers simplifies a run.
"""
import hashlib
import random


class Violation(Exception):
    """The property does not hold on this run."""

    def __init__(self, kind, msg):
        super().__init__(f"{kind}: {msg}")
        self.kind = kind
        self.msg = msg


class Discard(Exception):
    """The choices describe no valid run (only ever raised while shrinking)."""


class BudgetExceeded(Exception):
    pass


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, (bytes, bytearray, memoryview)):
            h.update(bytes(p))
        else:
            h.update(repr(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:16]


class Ctx:
    MAX_CHOICES = 4000

    def __init__(self, seed=None, choices=None, tier="quick"):
        self.seed = seed
        self.tier = tier
        self._given = list(choices) if choices is not None else None
        self._rng = (
            random.Random(f"pmm-sim/{seed}") if choices is None else None
        )
        self.choices = []
        self.labels = []
        # the number of this run among those of its search (see cycle)
        self._turn, self._deck = None, None
        if choices is None and str(seed).count("/") >= 2:
            head, cls, k = str(seed).rsplit("/", 2)
            if k.isdigit():
                self._turn, self._deck = 2 * int(k) + (cls == "d"), head
        self.events = []
        self._hash = hashlib.sha256()
        self.faults = {}
        self.cov = set()
        self.stats = {}

    # -- choices -------------------------------------------------------
    def draw(self, n, label=""):
        """An integer in [0, n)."""
        assert n >= 1
        i = len(self.choices)
        if i >= self.MAX_CHOICES:
            raise BudgetExceeded("too many choices")
        if self._given is None:
            v = self._rng.randrange(n)
        else:
            v = self._given[i] if i < len(self._given) else 0
            v = max(0, min(int(v), n - 1))
        self.choices.append(v)
        self.labels.append((label, n))
        return v

    def chance(self, num, den, label=""):
        """True with probability num/den; the simplest choice is False."""
        return self.draw(den, label) >= den - num

    def pick(self, seq, label=""):
        return seq[self.draw(len(seq), label)]

    def weighted(self, pairs, label=""):
        """pairs: [(value, weight)]; the first value is the simplest."""
        total = sum(w for _, w in pairs)
        v = self.draw(total, label)
        for value, w in pairs:
            if v < w:
                return value
            v -= w
        raise AssertionError

    def cycle(self, pairs, label=""):
        """Like weighted, but the runs of one search take turns: among any
        total-weight consecutive ones every value gets its share.  Cycles may
        follow each other in a run; the later ones take turns among the runs
        that chose alike before.  In a replay it is a choice like any other."""
        pairs = [p if isinstance(p, tuple) and len(p) == 2 else (p, 1) for p in pairs]
        if self._turn is None:
            return self.weighted(pairs, label)
        deck = [i for i, (_, w) in enumerate(pairs) for _ in range(w)]
        slots = list(range(len(deck)))
        random.Random(f"{self._deck}/{label}").shuffle(slots)
        at = self._turn % len(slots)
        i = deck[slots[at]]
        rank = sum(1 for s in slots[:at] if deck[s] == i)
        self._turn = self._turn // len(slots) * pairs[i][1] + rank
        self.choices.append(slots[at])
        self.labels.append((label, len(slots)))
        return pairs[i][0]

    def between(self, lo, hi, label=""):
        """An integer in [lo, hi]; lo is the simplest."""
        return lo + self.draw(hi - lo + 1, label)

    # -- records -------------------------------------------------------
    def ev(self, *items):
        r = repr(items)
        self._hash.update(r.encode())
        self._hash.update(b"\n")
        if len(self.events) < 400:
            self.events.append(r if len(r) < 300 else r[:300] + "...")

    def fault(self, kind, *detail):
        self.faults[kind] = self.faults.get(kind, 0) + 1
        self.ev("fault", kind, *detail)

    def cover(self, *key):
        self.cov.add("/".join(str(k) for k in key))

    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def loghash(self):
        return self._hash.hexdigest()[:16]

    def fail(self, kind, msg):
        raise Violation(kind, msg)

    def check(self, cond, kind, msg):
        if not cond:
            raise Violation(kind, msg() if callable(msg) else msg)
