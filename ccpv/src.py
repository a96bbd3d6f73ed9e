"""Choice source: every random decision of a generator goes through one of these.

A run is fully described by the recorded list of choices, which is what the coverage-guided
mutator edits and what the shrinker minimises (smaller choices = simpler cases).
"""
import random


class Src:
    __slots__ = ("rng", "prefix", "i", "rec", "np", "_avg")

    def __init__(self, rng=None, prefix=()):
        self.rng = rng
        self.prefix = prefix
        self.np = len(prefix)
        self.i = 0
        self.rec = []

    def draw(self, n):
        """An integer 0 <= v < n."""
        i = self.i
        self.i = i + 1
        if i < self.np:
            v = self.prefix[i]
            if v >= n:
                v = n - 1
        elif self.rng is not None:
            v = int(self.rng.random() * n) if n < (1 << 50) else self.rng.randrange(n)
        else:
            v = 0
        self.rec.append(v)
        return v

    # -- helpers -----------------------------------------------------------------
    def int(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def pick(self, seq):
        return seq[self.draw(len(seq))]

    def chance(self, p):
        """True with probability p; shrinks to False."""
        return self.draw(1000) >= 1000 - int(1000 * p)

    def weighted(self, pairs):
        """pairs: [(weight, value)...]; shrinks to the first."""
        tot = sum(w for w, _ in pairs)
        v = self.draw(tot)
        for w, x in pairs:
            if v < w:
                return x
            v -= w
        return pairs[-1][1]

    def list(self, fn, lo=0, hi=10, avg=3):
        """Each element is preceded by a continue flag, so deleting a chunk of choices deletes elements."""
        out = []
        p = avg / (avg + 1.0)
        while len(out) < hi:
            if len(out) >= lo and not self.chance(p):
                break
            out.append(fn())
        return out

    def subset(self, seq, p=0.5):
        return [x for x in seq if self.chance(p)]

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1, 0, -1):
            # 0 = leave in place, so that it shrinks to the original order
            j = i - self.draw(i + 1)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def bigint(self, lo, hi):
        """Uniform / edge-biased integer."""
        k = self.draw(6)
        if k == 0 or hi - lo < 8:
            return self.int(lo, hi)
        if k == 1:
            return lo + self.draw(min(4, hi - lo + 1))
        if k == 2:
            return hi - self.draw(min(4, hi - lo + 1))
        if k == 3:  # around a power of two
            b = (hi - lo).bit_length()
            v = (1 << self.draw(b)) + self.draw(3) - 1
            return min(hi, max(lo, lo + v))
        if k == 4:
            b = (hi - lo).bit_length()
            return min(hi, lo + self.draw(1 << self.int(1, b)))
        return self.int(lo, hi)

    def str(self, alphabet, lo=0, hi=8, avg=3):
        return "".join(self.list(lambda: self.pick(alphabet), lo, hi, avg))


def shrink(choices, fails, budget, now):
    """Minimise a failing list of choices.  fails(list) -> recorded choices when it still fails, else None."""
    import time
    end = now() + budget
    best = list(choices)
    tried = set()

    def attempt(cand):
        nonlocal best
        if now() > end:
            return False
        key = tuple(cand)
        if key in tried:
            return False
        if len(tried) < 300000:
            tried.add(key)
        rec = fails(cand)
        if rec is None:
            return False
        rec = list(rec)
        if (len(rec), rec) < (len(best), best):
            best = rec
            return True
        return False

    improved = True
    while improved and now() < end:
        improved = False
        # delete chunks
        size = max(1, len(best) // 2)
        while size >= 1:
            i = len(best) - size
            while i >= 0:
                if attempt(best[:i] + best[i + size:]):
                    improved = True
                    i = min(i, len(best) - size)
                else:
                    i -= max(1, size // 2) if size > 4 else 1
                if now() > end:
                    break
            size = size // 2 if size > 4 else size - 1
        # delete a chunk while clearing/lowering an earlier flag
        for i in range(len(best)):
            if i >= len(best) or now() > end:
                break
            if best[i]:
                for size in (1, 2, 3, 4, 5, 6, 8):
                    c = best[:i] + [0] + best[i + 1 + size:]
                    if attempt(c):
                        improved = True
                        break
        # zero chunks
        for size in (8, 4, 2):
            i = 0
            while i + size <= len(best) and now() < end:
                if any(best[i:i + size]) and attempt(best[:i] + [0] * size + best[i + size:]):
                    improved = True
                i += size
        # minimise single values
        i = 0
        while i < len(best) and now() < end:
            v = best[i]
            if v:
                if attempt(best[:i] + [0] + best[i + 1:]):
                    improved = True
                else:
                    lo, hi = 0, v
                    while hi - lo > 1 and now() < end:
                        mid = (lo + hi) // 2
                        if i < len(best) and attempt(best[:i] + [mid] + best[i + 1:]):
                            improved = True
                            hi = mid
                        else:
                            lo = mid
                    if i < len(best) and best[i] > 0 and attempt(best[:i] + [best[i] - 1] + best[i + 1:]):
                        improved = True
            i += 1
    return best
