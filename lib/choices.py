"""A recorded sequence of small integer choices: the source of all randomness of a generated case.

Every generator draws from a Choices object only.  A case is a pure function of the sequence, so that a failing case
is shrunk by deleting and lowering entries of the sequence and running the generator again.  0 is the simplest choice
everywhere; a sequence that ends early continues with zeros.
"""
import random


class Choices:
    def __init__(self, rng=None, prefix=(), limit=20000):
        self.rng = rng
        self.prefix = prefix
        self.taken = []
        self.limit = limit

    def below(self, n):
        """An integer in [0, n)."""
        i = len(self.taken)
        if n <= 1:
            return 0
        if i < len(self.prefix):
            v = self.prefix[i]
            if v >= n:
                v = v % n
        elif self.rng is None or i >= self.limit:
            v = 0
        else:
            v = int(self.rng.random() * n)
        self.taken.append(v)
        return v

    def between(self, lo, hi):
        return lo + self.below(hi - lo + 1)

    def chance(self, percent):
        """True with the given probability; False is the simple outcome."""
        return self.below(100) >= 100 - percent

    def pick(self, seq):
        return seq[self.below(len(seq))]

    def weighted(self, pairs):
        """pairs: (weight, value); the first is the simplest."""
        total = 0
        for w, _ in pairs:
            total += w
        r = self.below(total)
        for w, v in pairs:
            if r < w:
                return v
            r -= w
        raise AssertionError

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1, 0, -1):
            j = i - self.below(i + 1)
            seq[i], seq[j] = seq[j], seq[i]
        return seq


def from_seed(*parts):
    return Choices(random.Random("|".join(map(str, parts))))


def shrink(seq, still_fails, out_of_time, max_runs=4000):
    """seq: list of ints for which still_fails(seq) returned a (possibly shorter) list; returns a simpler list."""
    best = list(seq)
    runs = 0

    def attempt(cand):
        nonlocal best, runs
        if runs >= max_runs or out_of_time():
            return False
        runs += 1
        got = still_fails(cand)
        if got is None:
            return False
        got = list(got)
        while got and got[-1] == 0:
            got.pop()
        if (len(got), got) < (len(best), best):
            best = got
            return True
        return False

    improved = True
    while improved and runs < max_runs and not out_of_time():
        improved = False
        size = max(1, len(best) // 2)
        while size >= 1:
            i = len(best) - size
            while i >= 0:
                if i + size <= len(best) and attempt(best[:i] + best[i + size :]):
                    improved = True
                i -= max(1, size // 2) if size > 8 else 1
            size //= 2
        for size in (8, 4, 2, 1):
            for i in range(0, len(best) - size + 1):
                if any(best[i : i + size]) and attempt(best[:i] + [0] * size + best[i + size :]):
                    improved = True
        for i in range(len(best)):
            if i < len(best) and best[i] > 0:
                v = best[i]
                for w in (v // 2, v - 1):
                    if i < len(best) and w < best[i] and attempt(best[:i] + [w] + best[i + 1 :]):
                        improved = True
        # delete one entry and lower an earlier one (list lengths followed by their items)
        for i in range(len(best) - 1):
            if i < len(best) and best[i] > 0:
                for k in (1, 2, 3, 5, 8):
                    if attempt(best[:i] + [best[i] - 1] + best[i + 1 + k :]):
                        improved = True
                        break
    return best
