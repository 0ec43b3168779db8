"""
Every random decision of a simulated run is drawn from a Choices object, which
records it.  Feeding the recorded list back repeats the run exactly; numbers
beyond the end of the list are 0, which by convention is the plainest option
(no fault, first item, smallest size), so that shortening or zeroing the list
gives a simpler run.
"""
import random


class Choices(object):
    def __init__(self, seed=None, feed=None):
        self.rng = random.Random(seed) if feed is None else None
        self.feed = feed
        self.pos = 0
        self.log = []

    def n(self, n):
        """integer in [0, n)"""
        if n <= 1:
            return 0
        if self.feed is None:
            v = self.rng.randrange(n)
        elif self.pos < len(self.feed):
            v = self.feed[self.pos] % n
        else:
            v = 0
        self.pos += 1
        self.log.append(v)
        return v

    def chance(self, p):
        """True with probability p"""
        if self.feed is None:
            v = 1 if self.rng.random() < p else 0
        elif self.pos < len(self.feed):
            v = self.feed[self.pos] % 2 if 0 < p < 1 else int(p >= 1)
        else:
            v = 0
        self.pos += 1
        self.log.append(v)
        return v == 1

    def weighted(self, weights):
        """index into weights"""
        if self.feed is None:
            x = self.rng.random() * sum(weights)
            v = 0
            for i, w in enumerate(weights):
                if w <= 0:
                    continue
                v = i
                x -= w
                if x < 0:
                    break
        elif self.pos < len(self.feed):
            v = self.feed[self.pos] % len(weights)
            if weights[v] <= 0:
                v = min(i for i, w in enumerate(weights) if w > 0)
        else:
            v = min(i for i, w in enumerate(weights) if w > 0)
        self.pos += 1
        self.log.append(v)
        return v

    def between(self, lo, hi):
        return lo + self.n(hi - lo + 1)

    def many(self, lo, hi, far, p=0.04):
        """mostly in [lo, hi], sometimes up to far"""
        return self.between(hi, far) if self.chance(p) else self.between(lo, hi)

    def pick(self, seq):
        return seq[self.n(len(seq))]

    def wpick(self, pairs):
        """pairs of (item, weight)"""
        return pairs[self.weighted([w for _, w in pairs])][0]

    def subset(self, seq, p=0.5):
        return [x for x in seq if self.chance(p)]

    def real(self, lo, hi, steps=1000):
        return lo + (hi - lo) * self.n(steps + 1) / float(steps)

    def shuffled(self, seq):
        seq = list(seq)
        out = []
        while seq:
            out.append(seq.pop(self.n(len(seq))))
        return out


def shrink(log, fails, budget, deadline):
    """
    Smaller list of choices for which fails(list) is still true.  fails returns
    the (possibly shorter) list actually used, or None.
    """
    best = list(log)
    tries = [0]

    def attempt(cand):
        if tries[0] >= budget or deadline():
            return False
        tries[0] += 1
        used = fails(cand)
        if used is None:
            return False
        while used and used[-1] == 0:
            used = used[:-1]
        if (len(used), sum(used)) < (len(best), sum(best)):
            best[:] = used
            return True
        return False

    improved = True
    while improved and tries[0] < budget and not deadline():
        improved = False
        # remove spans
        size = max(1, len(best) // 2)
        while size >= 1:
            i = 0
            while i < len(best):
                if attempt(best[:i] + best[i + size:]):
                    improved = True
                else:
                    i += size
                if tries[0] >= budget or deadline():
                    return best
            size //= 2
        # zero spans, then lower numbers
        size = max(1, len(best) // 4)
        while size >= 1:
            i = 0
            while i < len(best):
                span = best[i:i + size]
                if any(span) and attempt(best[:i] + [0] * len(span) + best[i + size:]):
                    improved = True
                i += size
                if tries[0] >= budget or deadline():
                    return best
            size //= 2
        for i in range(len(best)):
            if i < len(best) and best[i] > 1:
                for v in (1, best[i] // 2, best[i] - 1):
                    if i < len(best) and v < best[i] and attempt(best[:i] + [v] + best[i + 1:]):
                        improved = True
                        break
    return best
