"""C24 Hodge kernels and their serializer."""

import numpy as np

from vf import gen, ref, st
from vf.core import Clause

META = {
    "title": "Hodge kernels are the stated spectral functions of the Laplacians",
    "statement": (
        "For every complex, positive hyperparameters and edge index sets, "
        "each kernel evaluates to the weighted sum of its spectral function "
        "on the harmonic, gradient and curl subspace: diffusion "
        "exp(-kappa*lambda) (harmonic part 1), Matern "
        "(2mu/kappa^2+lambda)^(-mu) (harmonic part mu), Laplacian 1/lambda "
        "(harmonic part 1/(0.001+lambda)), each part with its own parameters "
        "and weight, while the non-HC variants use the down parameters for "
        "all parts, unweighted. Every such matrix is symmetric positive "
        "semidefinite, its rows and columns follow the given indices "
        "(repeated or reordered), the diagonal request returns its diagonal, "
        "and hyperparameters read back as the positive values set. The "
        "serializer returns the kernel of the requested name and rejects "
        "unknown data, unknown and unimplemented kernels with a ValueError."
    ),
    "over": ["inputs"],
    "quantifier": "every complex, kernel, hyperparameters and index sets",
    "why": (
        "the tests only construct kernels and train one to a small error; "
        "they never compare a kernel value, so a swapped weight or subspace "
        "goes unnoticed"
    ),
    "files": [
        "pytspl/hogde_gp/forex/diffusion.py",
        "pytspl/hogde_gp/forex/diffusion_non_hc.py",
        "pytspl/hogde_gp/forex/matern.py",
        "pytspl/hogde_gp/forex/matern_non_hc.py",
        "pytspl/hogde_gp/forex/laplacian.py",
        "pytspl/hogde_gp/kernel_serializer.py",
        "pytspl/hogde_gp/kernels.py",
    ],
    "mechanism": [
        {
            "name": "spectral functions",
            "where": "*KernelForex._eval_covar_matrix",
        },
        {"name": "kernel matrix", "where": "*KernelForex.forward"},
        {
            "name": "hyperparameter setters",
            "where": "*KernelForex.{kappa,mu,h}* properties",
        },
        {
            "name": "name lookup",
            "where": "KernelSerializer._get_serializer, Kernels",
        },
    ],
}
RULE = (
    "random complex, kernel, hyperparameters over two orders of magnitude and "
    "index lists with repetitions, in single and double precision; oracle: "
    "the spectral function of the dense Laplacian in double precision, "
    "computed without eigenpairs of the code; non-trivial = gradient and curl "
    "subspace present and kappa_down != kappa_up"
)
ASSUMPTIONS = ["single precision results are compared to 2e-4 relative"]
KINDS = ("diffusion", "diffusion_non_hc", "matern", "matern_non_hc", "laplacian")
MATERN = (
    "kappa_down",
    "kappa_up",
    "kappa",
    "mu",
    "mu_down",
    "mu_up",
    "h",
    "h_down",
    "h_up",
)
PARAMS = {
    "diffusion": ("kappa_down", "kappa_up", "h", "h_down", "h_up"),
    "diffusion_non_hc": ("kappa_down", "kappa_up", "h", "h_down", "h_up"),
    "matern": MATERN,
    "matern_non_hc": MATERN,
    "laplacian": ("kappa_down", "kappa_up", "mu"),
}


def eigenpairs(case, dtype):
    """Reference eigenpairs, in the order the kernels take them."""
    import torch

    full, low, up = ref.laps(case)
    vecs, vals = [], []
    for m, zero in ((full, True), (low, False), (up, False)):
        w, u = np.linalg.eigh(m)
        sel = np.abs(w) < 1e-9 if zero else w > 1e-9
        vecs.append(u[:, sel])
        vals.append(np.where(np.abs(w[sel]) < 1e-9, 0.0, w[sel]))
    return [torch.tensor(np.array(x), dtype=dtype) for x in vecs + vals]


def spectral(case, kind, q):
    """The full kernel matrix by its definition."""
    full, low, up = ref.laps(case)
    pg, pc, ph = ref.projectors(case)
    if np.trace(ph) < 0.5:
        ph = 0 * ph  # no rounding errors, which large weights would amplify

    def on(P, m, fn):
        w, u = np.linalg.eigh(m)
        y = np.array([fn(x) if x > 1e-9 else 0.0 for x in w])
        return u @ np.diag(y) @ u.T

    def matern(k, m):
        return lambda x: (2 * m / k**2 + x) ** (-m)

    if kind == "diffusion":
        return (
            q["h"] * ph
            + q["h_down"] * on(pg, low, lambda x: np.exp(-q["kappa_down"] * x))
            + q["h_up"] * on(pc, up, lambda x: np.exp(-q["kappa_up"] * x))
        )
    if kind == "diffusion_non_hc":
        fn = lambda x: np.exp(-q["kappa_down"] * x)  # noqa: E731
        return ph + on(pg, low, fn) + on(pc, up, fn)
    if kind == "laplacian":
        return (
            q["mu"] * 1e3 * ph
            + q["kappa_down"] * on(pg, low, lambda x: 1 / x)
            + q["kappa_up"] * on(pc, up, lambda x: 1 / x)
        )
    if kind == "matern":
        return (
            q["h"] * q["mu"] * ph
            + q["h_down"]
            * on(pg, low, matern(q["kappa_down"], q["mu_down"]))
            + q["h_up"] * on(pc, up, matern(q["kappa_up"], q["mu_up"]))
        )
    fn = matern(q["kappa_down"], q["mu_down"])
    return fn(0.0) * ph + on(pg, low, fn) + on(pc, up, fn)


@st.composite
def cases(draw, big=False):
    c = draw(gen.complexes(min_nodes=2, max_nodes=7, big=big))
    c["kind"] = draw(st.sampled_from(KINDS))
    c["params"] = {
        k: draw(st.log_floats(0.1, 10.0 if k[0] == "k" else 4.0))
        for k in PARAMS[c["kind"]]
    }
    if draw(st.integers(0, 3)) == 0:
        c["params"] = {
            k: draw(
                st.log_floats(1e-3, 1e5)
                if k[0] == "h"
                else st.log_floats(0.03, 50.0 if k[0] == "k" else 6.0)
            )
            for k in PARAMS[c["kind"]]
        }
    E = len(c["edges"])
    c["i"] = draw(st.lists(st.integers(0, E - 1), min_size=1, max_size=E + 2))
    c["j"] = draw(st.lists(st.integers(0, E - 1), min_size=1, max_size=E + 2))
    c["double"] = draw(st.booleans())
    c["column"] = draw(st.booleans())
    c["defaults"] = draw(st.integers(0, 5)) == 0
    c["tensors"] = draw(st.booleans())
    # some of the hyperparameters change later, set or trained
    c["later"] = {
        k: draw(st.log_floats(0.2, 4.0))
        for k in PARAMS[c["kind"]]
        if draw(st.booleans())
    }
    c["trained"] = draw(st.booleans())
    c["bad"] = draw(
        st.sampled_from(["", "Matern", "laplacian_non_hc", "rbf", "forex"])
    )
    return c


def check(case, rec):
    import torch
    from pytspl.hogde_gp.kernel_serializer import KernelSerializer

    kind, q = case["kind"], dict(case["params"])
    dtype = torch.float64 if case["double"] else torch.float32
    tol = 1e-9 if case["double"] else 2e-4
    pairs = eigenpairs(case, dtype)
    keep = [p.clone() for p in pairs]
    kernel = KernelSerializer().serialize(
        eigenpairs=pairs, kernel_type=kind, data_name="forex"
    )
    if case["double"]:
        kernel = kernel.double()
    dims = [p.shape[1] for p in pairs[:3]]
    rec.label(kind, *[n for n, d in zip(("harm", "grad", "curl"), dims) if d])
    rec.mark(dims[1] and dims[2] and q["kappa_down"] != q["kappa_up"])
    if case["defaults"]:
        q = {k: float(np.log(2.0)) for k in q}
    else:
        for k, v in q.items():
            setattr(kernel, k, torch.tensor(v) if case["tensors"] else v)
    for k, v in q.items():
        got = float(getattr(kernel, k))
        ref.need(
            abs(got - v) <= 1e-5 * v, f"{k}: reads {got}, was set to {v}"
        )
        q[k] = got  # the value set is rounded to single precision
    K = spectral(case, kind, q)
    s = max(1e-3, float(np.max(np.abs(K), initial=0.0)))
    E = len(case["edges"])

    def at(i, j):
        xi, xj = torch.tensor(i, dtype=dtype), torch.tensor(j, dtype=dtype)
        if case["column"]:
            xi, xj = xi.unsqueeze(-1), xj.unsqueeze(-1)
        return ref.arr(kernel(xi, xj).to_dense())

    every = list(range(E))
    M = at(every, every)
    ref.same(M, K, f"{kind} kernel matrix", tol, s)
    ref.same(M, M.T, f"{kind} symmetry", tol, s)
    ref.need(
        float(np.linalg.eigvalsh((M + M.T) / 2)[0]) >= -tol * s * E,
        f"{kind} kernel matrix is not positive semidefinite",
    )
    i, j = case["i"], case["j"]
    ref.same(
        at(i, j), K[np.ix_(i, j)], f"{kind} kernel at {i} x {j}", tol, s
    )
    x = torch.tensor(i, dtype=dtype)
    ref.same(
        kernel(x, diag=True), np.diag(K)[i], f"{kind} diagonal at {i}", tol, s
    )
    ref.same(
        kernel(x).to_dense(), K[np.ix_(i, i)], f"{kind} kernel at {i}", tol, s
    )
    # the kernel function itself: one set of points is compared to itself
    col = x.unsqueeze(-1)
    ref.same(
        kernel.forward(col), K[np.ix_(i, i)], f"{kind} forward at {i}", tol, s
    )
    ref.same(
        kernel.forward(col, diag=True),
        np.diag(K)[i],
        f"{kind} forward diagonal at {i}",
        tol,
        s,
    )
    if case["later"]:
        for k, v in case["later"].items():
            raw = getattr(kernel, f"raw_{k}", None)
            if case["trained"] and raw is not None:
                with torch.no_grad():
                    raw.add_(float(np.log(v)))
                q[k] = float(getattr(kernel, k))
                continue
            setattr(kernel, k, v)
            q[k] = float(getattr(kernel, k))
            ref.need(
                abs(q[k] - v) <= 1e-5 * v,
                f"{k}: reads {q[k]} after a change to {v}",
            )
        K = spectral(case, kind, q)
        s = max(1e-3, float(np.max(np.abs(K), initial=0.0)))
        ref.same(
            at(i, j),
            K[np.ix_(i, j)],
            f"{kind} kernel at {i} x {j} after a change of {sorted(case['later'])}",
            tol,
            s,
        )
        ref.same(at(every, every), K, f"{kind} matrix after a change", tol, s)
        rec.label("changed later")
    ref.need(
        all(torch.equal(a, b) for a, b in zip(pairs, keep)),
        "the given eigenpairs were changed",
    )
    ref.raises(
        ValueError,
        lambda: KernelSerializer().serialize(
            eigenpairs=pairs, kernel_type=case["bad"], data_name="forex"
        ),
        f"kernel type {case['bad']!r}",
    )
    ref.raises(
        ValueError,
        lambda: KernelSerializer().serialize(
            eigenpairs=pairs, kernel_type=kind, data_name=case["bad"] + "x"
        ),
        f"data name {case['bad'] + 'x'!r}",
    )


CLAUSES = [
    Clause("kernel", cases, check, 6000),
    Clause("large", lambda: cases(big="large"), check, 240),
    Clause("huge", lambda: cases(big="huge300"), check, 16, seeded=True),
]
