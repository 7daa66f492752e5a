"""Choices, runs, violations, minimisation.

A run is a pure function of (scenario, platform, list of choices, code under test).  With a seed, choices come from
one PRNG and are recorded; with a replay list they come from the list (and are 0, the simplest, past its end).
"""
import hashlib
import random


class Violation(Exception):
    """The property is broken.  `cls` is stable under minimisation and identifies the kind of failure."""

    def __init__(self, cls, msg=''):
        Exception.__init__(self, '%s: %s' % (cls, msg))
        self.cls = cls
        self.msg = msg


class HarnessError(Exception):
    pass


class Discard(Exception):
    """The generated world is not interesting (counted, never a verdict)."""


class Choices(object):
    def __init__(self, seed=None, replay=None, limit=200000, sink=None):
        self.sink = sink
        self.seed = seed
        self.rec = []
        self.replay = replay
        self.pos = 0
        self.limit = limit
        self._rng = random.Random(seed) if replay is None else None

    def rand(self, n):
        """integer in [0, n); 0 is the simplest"""
        if n <= 1:
            return 0
        if self.replay is not None:
            if self.pos < len(self.replay):
                v = self.replay[self.pos] % n
            else:
                v = 0
        else:
            v = (self._rng.getrandbits(53) * n) >> 53 if n < (1 << 40) else self._rng.randrange(n)
        self.pos += 1
        if self.pos > self.limit:
            raise HarnessError('too many choices in one run')
        self.rec.append(v)
        if self.sink is not None:
            self.sink(b'%d\n' % v)
        return v

    def chance(self, num, den):
        """True with probability num/den; False is the simplest"""
        return self.rand(den) >= den - num

    def pick(self, seq):
        return seq[self.rand(len(seq))]

    def weighted(self, pairs):
        """pairs of (weight, item); the first is the simplest"""
        tot = sum(w for w, _ in pairs)
        x = self.rand(tot)
        for w, it in pairs:
            if x < w:
                return it
            x -= w

    def size(self, *bounds):
        """a size, biased to small: size(3, 20, 300) usually < 3, sometimes < 20, rarely < 300"""
        i = 0
        while i < len(bounds) - 1 and self.rand(4) == 3:
            i += 1
        return self.rand(bounds[i] + 1)

    def between(self, a, b):
        return a + self.rand(b - a + 1)

    def sub(self):
        """a PRNG for bulk content that takes a single choice"""
        return random.Random(self.rand(1 << 32))

    def shuffle(self, lst):
        for i in range(len(lst) - 1, 0, -1):
            j = self.rand(i + 1)
            lst[i], lst[j] = lst[j], lst[i]


def derive(*parts):
    """Deterministic 60 bit seed from the parts."""
    h = hashlib.sha256(repr(parts).encode()).digest()
    return int.from_bytes(h[:8], 'big') >> 4


class Run(object):
    """Context of one simulated run: choices, event log, counters."""

    def __init__(self, choices, platform, keep_log=False):
        self.ch = choices
        self.platform = platform
        self.keep_log = keep_log
        self.lines = []
        self.h = hashlib.sha256()
        self.nlog = 0
        self.faults = {}
        self.probes = {}
        self.states = set()
        self.simtime = 0
        self.steps = 0

    # ---- event log (never draws choices)
    def log(self, *parts):
        s = ' '.join(p if isinstance(p, str) else repr(p) for p in parts)
        self.h.update(s.encode('utf-8', 'backslashreplace') + b'\n')
        self.nlog += 1
        if self.keep_log:
            if len(s) > 2000:
                s = s[:2000] + '...'
            self.lines.append(s)

    def digest(self):
        return self.h.hexdigest()[:32]

    # ---- counters
    def fault(self, kind):
        self.faults[kind] = self.faults.get(kind, 0) + 1
        self.log('fault', kind)

    def probe(self, name):
        self.probes[name] = self.probes.get(name, 0) + 1

    def state(self, *key):
        self.states.add(int.from_bytes(hashlib.blake2b(repr(key).encode(), digest_size=6).digest(), 'big'))

    def fail(self, cls, msg=''):
        raise Violation(cls, msg)

    def check(self, cond, cls, msg=''):
        if not cond:
            raise Violation(cls, msg() if callable(msg) else msg)


# ------------------------------------------------------------------------------------------------------------

def shrink(choices, attempt, budget, clock):
    """Minimise a list of choices.  attempt(list) -> (still fails the same way, recorded choices or None).
    budget: max attempts; clock() returns True when time is up."""
    best = list(choices)
    n = [0]

    def ok(cand):
        if n[0] >= budget or clock():
            return None
        n[0] += 1
        good, rec = attempt(cand)
        if good:
            # the recorded list may be shorter (unused tail) or normalised
            if rec is not None and len(rec) <= len(cand):
                return list(rec)
            return list(cand)
        return None

    def strip(lst):
        while lst and lst[-1] == 0:
            lst.pop()
        return lst

    best = strip(best)
    improved = True
    while improved and n[0] < budget and not clock():
        improved = False
        # delete chunks
        size = max(1, len(best) // 2)
        while size >= 1:
            i = 0
            while i < len(best):
                cand = best[:i] + best[i + size:]
                r = ok(cand)
                if r is not None and len(strip(r)) < len(best):
                    best = strip(r)
                    improved = True
                else:
                    i += size
                if n[0] >= budget or clock():
                    return best, n[0]
            size //= 2
        # zero chunks
        size = max(1, len(best) // 2)
        while size >= 1:
            i = 0
            while i < len(best):
                if any(best[i:i + size]):
                    cand = best[:i] + [0] * len(best[i:i + size]) + best[i + size:]
                    r = ok(cand)
                    if r is not None and key(strip(r)) < key(best):
                        best = r
                        improved = True
                i += size
                if n[0] >= budget or clock():
                    return best, n[0]
            size //= 2
        # lower single values
        for i in range(len(best)):
            if i >= len(best):
                break
            v = best[i]
            lo = 0
            while v - lo > 1 and i < len(best):
                mid = (lo + v) // 2
                cand = best[:i] + [mid] + best[i + 1:]
                r = ok(cand)
                if r is not None and key(strip(r)) < key(best):
                    best = r
                    v = mid
                    improved = True
                else:
                    lo = mid
                if n[0] >= budget or clock():
                    return best, n[0]
    return best, n[0]


def key(lst):
    return (len(lst), sum(1 for x in lst if x), lst)
