"""C25 data preparation of the Hodge GP trainer."""

import numpy as np

from vf import gen, ref, st
from vf.core import Clause, Fixed, Skip

META = {
    "title": "The GP trainer prepares aligned data, operators and eigenpairs",
    "statement": (
        "For every complex, target values, ratio and seed, the trainer's "
        "Laplacians (full, lower, upper), incidence matrices (B1, B2) and "
        "eigenpairs (harmonic, gradient, curl vectors, then values in that "
        "order) are those of the complex as single-precision tensors. The "
        "train/test split partitions the edge indices, holds the requested "
        "share (rounded down) for training, keeps each target with its own "
        "edge, returns all edges in order besides, is stored on the trainer "
        "and repeats for the same seed. With normalisation all three target "
        "sets are shifted and scaled by mean and (unbiased) standard "
        "deviation of the training targets only; the given targets stay "
        "unchanged."
    ).replace(" only; the given", " only, while the given"),
    "over": ["inputs"],
    "quantifier": "every complex, target vector, ratio, seed and tolerance",
    "why": (
        "the tests check types and lengths on one dataset; they do not "
        "compare a single index, value or eigenvector"
    ),
    "files": ["pytspl/hogde_gp/hodge_gp_trainer.py"],
    "mechanism": [
        {
            "name": "operators and eigenpairs as tensors",
            "where": "HodgeGPTrainer.get_laplacians, get_incidence_matrices, get_eigenpairs",
        },
        {
            "name": "split and normalisation",
            "where": "HodgeGPTrainer.train_test_split, normalize_data",
        },
    ],
}
RULE = (
    "random complex with at least 2 edges, targets, ratio leaving both parts "
    "non-empty, seed and eigenvalue tolerance; oracle: definitions and "
    "reference projectors; non-trivial = at least 3 training edges, "
    "non-constant training targets"
)


def share(E, r):
    return int(np.floor(r * E))


@st.composite
def cases(draw, big=True):
    c = draw(
        gen.complex_flow(
            min_nodes=3, max_nodes=9, big=big, nonzero=True, connected="mostly"
        )
    )
    E = len(c["edges"])
    k = draw(st.integers(1, E - 1))
    c["ratio"] = draw(
        st.sampled_from([0.2, 0.5, 0.8, (k + 0.5) / E, (k + 0.1) / E])
    )
    if not 1 <= share(E, c["ratio"]) <= E - 1:
        c["ratio"] = (k + 0.5) / E
    c["seed"] = draw(st.integers(0, 10**6))
    c["norm"] = draw(st.booleans())
    c["earlier"] = draw(st.booleans())
    c["plain"] = draw(st.integers(0, 3)) == 0
    c["size"] = draw(st.sampled_from([1, 1, 1, 1e-5, 1e-3, 1e5]))
    c["single"] = draw(st.integers(0, 3)) == 0
    c["pick"] = draw(st.integers(0, 40))
    return c


def single(x, what):
    import torch

    ref.need(
        isinstance(x, torch.Tensor) and x.dtype == torch.float32,
        f"{what} is not a single precision tensor",
    )
    return ref.arr(x)


def check(case, rec):
    from pytspl.hogde_gp import HodgeGPTrainer

    sc = ref.build(case)
    y = ref.vec(case["flow"])
    y = y * case["size"] if case["size"] != 1 else y
    if case["single"]:
        y = y.astype(np.float32)
        rec.label("single precision targets")
    keep = y.copy()
    E = len(y)
    tr = HodgeGPTrainer(sc=sc, y=y)
    full, low, up = ref.laps(case)

    got = tr.get_laplacians()
    ref.exact(len(got), 3, "number of Laplacians")
    for g, w, n in zip(got, (full, low, up), ("full", "lower", "upper")):
        ref.same(single(g, n), w, f"{n} Laplacian", 1e-6)
    got = tr.get_incidence_matrices()
    ref.exact(len(got), 2, "number of incidence matrices")
    ref.same(single(got[0], "B1"), ref.b1(case), "B1")
    B2, want = single(got[1], "B2"), ref.b2(case)
    ref.need(B2.shape == want.shape, f"B2 has shape {B2.shape}")
    # the orientation of a triangle is free
    sign = np.where(np.sum(B2 * want, axis=0) < 0, -1.0, 1.0)
    ref.same(B2, want * sign, "B2")
    ref.same(B2, sc.incidence_matrix(rank=2), "B2 (of the complex)")

    # eigenpairs
    P = ref.projectors(case)
    parts = (("harm", full, P[2]), ("grad", low, P[0]), ("curl", up, P[1]))
    for tol in (None, "gap"):
        kw = {}
        if tol == "gap":
            ev = np.linalg.eigvalsh(full)
            cuts = [
                (a + b) / 2 for a, b in zip(ev, ev[1:]) if b - a > 0.05
            ] + [float(ev[-1]) + 1.0]
            kw = {"tolerance": float(cuts[case["pick"] % len(cuts)])}
        pairs = tr.get_eigenpairs(**kw)
        ref.exact(len(pairs), 6, "number of eigenpair tensors")
        t = kw.get("tolerance", 1e-3)
        for k, (n, m, proj) in enumerate(parts):
            vec = single(pairs[k], f"{n} vectors")
            val = single(pairs[k + 3], f"{n} values")
            w, u = np.linalg.eigh(m)
            sel = w <= t if n == "harm" else w > t
            ref.same(val, w[sel], f"{n} values ({kw})", 1e-5)
            ref.same(
                vec @ vec.T,
                u[:, sel] @ u[:, sel].T,
                f"span of the {n} vectors ({kw})",
                1e-5,
            )
            ref.same(m @ vec, vec * val, f"{n} eigenvector equation", 1e-4)
            if not kw:
                ref.same(vec @ vec.T, proj, f"{n} subspace", 1e-5)

    # split
    kw = dict(
        train_ratio=case["ratio"],
        data_normalization=case["norm"],
        seed=case["seed"],
    )
    n = share(E, case["ratio"])
    if case["plain"] and 1 <= share(E, 0.8) < E:
        kw, n = {}, share(E, 0.8)
        case["norm"] = False
    if case["earlier"] and E >= 2:
        rec.label("a later split")
        tr.train_test_split(
            train_ratio=0.5, data_normalization=True, seed=case["seed"] + 1
        )
    out = tr.train_test_split(**kw)
    ref.exact(len(out), 6, "number of split parts")
    names = ("x_train", "y_train", "x_test", "y_test", "x", "y")
    xt, yt, xs, ys, x, ya = [single(o, k) for o, k in zip(out, names)]
    ref.need(
        sorted(xt.tolist() + xs.tolist()) == list(range(E)),
        f"the split is no partition: {xt.tolist()} | {xs.tolist()}",
    )
    ref.exact(len(xt), n, f"training edges of {E} at ratio {kw}")
    ref.exact(x.tolist(), list(range(E)), "all edges")
    ref.need(np.array_equal(keep, y), "the given targets were changed")
    train = keep.astype(float)[xt.astype(int)]
    rec.mark(n >= 3 and np.ptp(train) > 0)
    mean, std = 0.0, 1.0
    if case["norm"]:
        rec.label("normalised")
        if n < 2 or np.std(train) < 1e-2 * np.max(np.abs(keep)):
            rec.label("no spread")
            std = None
        else:
            mean, std = np.mean(train), np.std(train, ddof=1)
    if std is not None:
        for a, idx, k in ((yt, xt, "train"), (ys, xs, "test"), (ya, x, "all")):
            w = (keep.astype(float)[idx.astype(int)] - mean) / std
            s = np.max(np.abs(keep)) / std
            s = s * max(1.0, s) if case["norm"] else s
            ref.same(a, w, f"{k} targets {kw}", 1e-6, s)
    for k, o in zip(names[:4], out):
        ref.need(
            np.array_equal(
                ref.arr(getattr(tr, k)), ref.arr(o), equal_nan=True
            ),
            f"stored {k} differs from the returned one",
        )
    again = HodgeGPTrainer(sc=sc, y=y).train_test_split(**kw)
    for k, a, b in zip(names, again, out):
        ref.need(
            np.array_equal(ref.arr(a), ref.arr(b), equal_nan=True),
            f"{k} differs when the split is repeated",
        )
    if E >= 6 and 2 <= n <= E - 2:
        splits = {
            tuple(
                ref.arr(
                    tr.train_test_split(
                        train_ratio=kw.get("train_ratio", 0.8), seed=s
                    )[0]
                )
            )
            for s in range(case["seed"], case["seed"] + 12)
        }
        ref.need(len(splits) > 1, "the split does not depend on the seed")
    ref.need(np.array_equal(keep, y), "the given targets were changed")


def check_slow(case, rec):
    """The default tolerance, on complexes with modes near it."""
    from pytspl.hogde_gp import HodgeGPTrainer

    tr = HodgeGPTrainer(sc=ref.build(case), y=np.zeros(len(case["edges"])))
    pairs = tr.get_eigenpairs()
    L1, low, up = ref.laps(case)
    for k, (n, m) in enumerate((("harm", L1), ("grad", low), ("curl", up))):
        w = np.linalg.eigvalsh(m)
        if np.any(np.abs(w - 1e-3) < 1e-7):
            raise Skip("a mode at the tolerance")
        want = w[w <= 1e-3] if n == "harm" else w[w > 1e-3]
        ref.same(
            ref.arr(pairs[k + 3]), want, f"{n} values, default tolerance", 1e-5
        )
        ref.need(
            tuple(pairs[k].shape) == (len(L1), len(want)),
            f"{n} vectors, default tolerance: {tuple(pairs[k].shape)}",
        )
    rec.mark()


CLAUSES = [
    Fixed("slow modes", gen.slow_cases, check_slow),
    Clause("preparation", cases, check, 4000),
    Clause("large", lambda: cases(big="large-tame"), check, 48, seeded=True),
]
