"""Choice sequences: every random decision of a generator goes through Src.draw, so a case is a pure
function of its list of choices and can be replayed and shrunk. Choice 0 is always the simplest."""
import random


class Src:
    def __init__(self, seed=None, choices=None, limit=6000):
        self.rng = random.Random(seed) if choices is None else None
        self.fixed = choices
        self.pos = 0
        self.log = []
        self.limit = limit

    def draw(self, n):
        """An integer in 0..n-1."""
        if n <= 1:
            return 0
        if self.fixed is not None:
            v = self.fixed[self.pos] if self.pos < len(self.fixed) else 0
            self.pos += 1
            if v >= n:
                v = n - 1
        else:
            v = self.rng.randrange(n) if len(self.log) < self.limit else 0
        self.log.append(v)
        return v

    def chance(self, num, den):
        """True with probability num/den; choice 0 is False."""
        return self.draw(den) >= den - num

    def pick(self, seq):
        return seq[self.draw(len(seq))]

    def weighted(self, items):
        """items: list of (weight, value); zero weights are skipped; the first entry is the simplest."""
        items = [(w, v) for w, v in items if w > 0]
        tot = sum(w for w, _ in items)
        k = self.draw(tot)
        for w, v in items:
            if k < w:
                return v
            k -= w

    def int(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1):
            j = i + self.draw(len(seq) - i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def subset(self, seq, num=1, den=2):
        return [x for x in seq if self.chance(num, den)]


def shrink_candidates(ch, limit=48):
    """Smaller choice lists to try, most aggressive first."""
    out, seen = [], {tuple(ch)}
    def add(c):
        t = tuple(c)
        if t not in seen and (len(t), t) < (len(ch), tuple(ch)):
            seen.add(t)
            out.append(list(c))
    n = len(ch)
    size = n // 2
    while size >= 1 and len(out) < limit:
        for i in range(0, n, size):
            add(ch[:i] + ch[i + size:])
        for i in range(0, n, size):
            if any(ch[i:i + size]):
                add(ch[:i] + [0] * len(ch[i:i + size]) + ch[i + size:])
        size //= 2
    return out


def simplify_values(ch):
    out = []
    for i, v in enumerate(ch):
        if v > 0:
            out.append(ch[:i] + [0] + ch[i + 1:])
            if v > 1:
                out.append(ch[:i] + [v // 2] + ch[i + 1:])
    return out


def shrink(ch, test_many, rounds=12, width=64):
    """test_many(list of choice lists) -> list of bool (still fails the same way). Greedy, batched."""
    cur = list(ch)
    rnd = random.Random(0)
    for _ in range(rounds):
        cands = shrink_candidates(cur, 400)
        vals = simplify_values(cur)
        if len(cands) > width:
            head = cands[:width // 2]
            cands = head + rnd.sample(cands[width // 2:], width - len(head))
        if len(vals) > width // 2:
            vals = rnd.sample(vals, width // 2)
        cands += vals
        if not cands:
            break
        ok = test_many(cands)
        good = [c for c, k in zip(cands, ok) if k]
        if not good:
            break
        best = min(good, key=lambda c: (len(c), c))
        cur = best
    return cur
