"""Strategies with two back ends.

`rnd(r)` draws from a `random.Random` seeded by an integer that Hypothesis
generates: this gives full control over the distribution and is used to
explore. `hyp` is the corresponding native Hypothesis strategy: it brings
Hypothesis' own edge-case bias and its shrinking."""

from hypothesis import strategies as hst


class S:
    def __init__(self, rnd, hyp):
        self.rnd = rnd
        self._hyp = hyp

    @property
    def hyp(self):
        return self._hyp()


def just(x):
    return S(lambda r: x, lambda: hst.just(x))


def integers(a, b):
    return S(lambda r: r.randint(a, b), lambda: hst.integers(a, b))


def booleans():
    return S(lambda r: r.random() < 0.5, hst.booleans)


def sampled_from(xs):
    xs = list(xs)
    return S(lambda r: r.choice(xs), lambda: hst.sampled_from(xs))


def floats(a, b):
    def rnd(r):
        k = r.random()
        if k < 0.03:
            return float(a)
        if k < 0.06:
            return float(b)
        if k < 0.2:
            return round(r.uniform(a, b), 1) if b - a > 0.5 else r.uniform(a, b)
        return r.uniform(a, b)

    return S(
        lambda r: min(max(rnd(r), a), b),
        lambda: hst.floats(a, b, allow_nan=False, allow_subnormal=False),
    )


def log_floats(a, b):
    """Positive numbers spread over orders of magnitude."""
    import math

    la, lb = math.log10(a), math.log10(b)

    def to(x):
        return min(max(10.0**x, a), b)

    return S(
        lambda r: to(r.uniform(la, lb)),
        lambda: hst.floats(la, lb, allow_nan=False).map(to),
    )


def lists(s, min_size=0, max_size=10, unique=False):
    def rnd(r):
        n = r.randint(min_size, max_size)
        if not unique:
            return [s.rnd(r) for _ in range(n)]
        out = []
        for _ in range(60 * (n + 1)):
            if len(out) == n:
                break
            x = s.rnd(r)
            if x not in out:
                out.append(x)
        return out

    return S(
        rnd,
        lambda: hst.lists(
            s.hyp, min_size=min_size, max_size=max_size, unique=unique
        ),
    )


def permutations(xs):
    xs = list(xs)

    def rnd(r):
        ys = list(xs)
        r.shuffle(ys)
        return ys

    return S(rnd, lambda: hst.permutations(xs))


def builds(fn, *args, **kw):
    return S(
        lambda r: fn(
            *[a.rnd(r) for a in args], **{k: v.rnd(r) for k, v in kw.items()}
        ),
        lambda: hst.builds(
            fn, *[a.hyp for a in args], **{k: v.hyp for k, v in kw.items()}
        ),
    )


def composite(fn):
    def make(*args, **kw):
        def rnd(r):
            return fn(lambda s: s.rnd(r), *args, **kw)

        def hyp():
            @hst.composite
            def inner(hdraw):
                return fn(lambda s: hdraw(s.hyp), *args, **kw)

            return inner()

        return S(rnd, hyp)

    return make
