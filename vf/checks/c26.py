"""C26 training and prediction of the Hodge Gaussian process."""

import contextlib
import io
import re

import numpy as np

from vf import gen, ref, st
from vf.checks.c24 import KINDS, PARAMS, eigenpairs, spectral
from vf.core import Clause, Skip

META = {
    "title": "GP training minimises the exact loss; prediction is the posterior",
    "statement": (
        "For every complex, kernel, hyperparameters, mean function and "
        "training data, prediction returns the closed-form Gaussian posterior "
        "at the requested edges, in their order: mean "
        "m+K*(K+s^2 I)^-1(y-m) and covariance K**-K*(K+s^2 I)^-1 K*'+s^2 I "
        "with K the scaled kernel; the metrics it reports are those of this "
        "prediction against the given test targets, and the given data stay "
        "unchanged. Training performs exactly the requested number of steps "
        "of the chosen optimiser at the chosen rate (1000 at 0.1 unless told "
        "otherwise) on the negative exact log marginal likelihood of the "
        "given data and keeps the trained model. The zero mean stays zero, any "
        "other choice is a trainable constant starting at zero."
    ),
    "over": ["inputs", "histories"],
    "quantifier": (
        "every complex, kernel, hyperparameters, data, optimiser, rate and "
        "number of steps"
    ),
    "why": (
        "the tests train one kernel on one dataset whose error is small for "
        "many wrong posteriors and optimisers"
    ),
    "files": [
        "pytspl/hogde_gp/hodge_gp_trainer.py",
        "pytspl/hogde_gp/exact_gp.py",
    ],
    "mechanism": [
        {"name": "optimisation loop", "where": "HodgeGPTrainer.train"},
        {"name": "posterior and metrics", "where": "HodgeGPTrainer.predict"},
        {"name": "prior", "where": "ExactGPModel.__init__, forward"},
    ],
}
RULE = (
    "random complex, kernel, hyperparameters, noise, output scale, split of "
    "the edges, mean function; oracle: dense Gaussian conditioning in double "
    "precision and, for training, the same optimiser on an independently "
    "written loss; non-trivial = at least two training and two test edges "
    "and a kernel matrix that couples them"
)
ASSUMPTIONS = ["torch optimisers and gpytorch's softplus constraints are trusted"]


@st.composite
def cases(draw, steps=False, big=False):
    c = draw(
        gen.complexes(
            min_nodes=4,
            max_nodes=6 if steps else 7,
            connected="mostly",
            big=big,
        )
    )
    E = len(c["edges"])
    if E < 4:
        c["edges"] = [[0, 1], [1, 2], [2, 3], [3, 0]]
        c["n"], c["tris"], E = 4, [], 4
    c["flow"] = [
        x / 100.0
        for x in draw(
            st.lists(st.integers(-300, 300), min_size=E, max_size=E)
        )
    ]
    c["kind"] = draw(st.sampled_from(KINDS))
    c["params"] = {
        k: draw(st.log_floats(0.2, 3.0)) for k in PARAMS[c["kind"]]
    }
    c["noise"] = draw(st.log_floats(2e-2, 2.0))
    c["scale"] = draw(st.log_floats(0.1, 5.0))
    if draw(st.integers(0, 3)) == 0:
        c["noise"] = draw(st.log_floats(1e-3, 20.0))
        c["scale"] = draw(st.log_floats(0.01, 100.0))
    c["mean"] = draw(st.sampled_from(["zero", None, "constant"]))
    c["const"] = draw(st.integers(-30, 30)) / 10.0
    perm = list(draw(st.permutations(list(range(E)))))
    k = draw(st.integers(2, E - 2))
    c["train"], c["test"] = perm[:k], perm[k:]
    c["double"] = draw(st.booleans()) or steps or bool(big)
    if steps:
        c["iters"] = draw(st.integers(0, 6))
        c["rate"] = draw(st.log_floats(1e-3, 0.3))
        if draw(st.integers(0, 5)) == 0:
            # long, and at times so slow that the loss hardly changes
            c["iters"] = draw(st.integers(12, 60))
            c["rate"] = draw(st.log_floats(1e-7, 0.02))
        c["again"] = draw(st.booleans())
        c["plain"] = draw(st.integers(0, 3)) == 0
        c["opt"] = draw(st.sampled_from([None, "Adam", "SGD", "RMSprop"]))
    return c


def model_of(case):
    import gpytorch
    import torch
    from pytspl.hogde_gp import ExactGPModel
    from pytspl.hogde_gp.kernel_serializer import KernelSerializer

    dtype = torch.float64 if case["double"] else torch.float32
    kernel = KernelSerializer().serialize(
        eigenpairs=eigenpairs(case, dtype),
        kernel_type=case["kind"],
        data_name="forex",
    )
    y = torch.tensor(case["flow"], dtype=dtype)
    xt = torch.tensor(case["train"], dtype=dtype)
    xs = torch.tensor(case["test"], dtype=dtype)
    yt, ys = y[case["train"]], y[case["test"]]
    like = gpytorch.likelihoods.GaussianLikelihood()
    model = ExactGPModel(xt, yt, like, kernel, mean_function=case["mean"])
    if case["double"]:
        model, like = model.double(), like.double()
    for k, v in case["params"].items():
        setattr(kernel, k, v)
    like.noise = case["noise"]
    model.covar_module.outputscale = case["scale"]
    return model, like, kernel, (xt, yt, xs, ys)


def the_mean(case, model):
    """Checks the prior mean and returns its value after setting it."""
    import torch

    names = [n for n, _ in model.mean_module.named_parameters()]
    probe = model.mean_module(torch.zeros(3, 1))
    ref.same(probe, np.zeros(3), "mean before training", 0)
    if case["mean"] == "zero":
        ref.need(not names, f"the zero mean has parameters {names}")
        return 0.0
    ref.need(bool(names), "the constant mean is not trainable")
    model.mean_module.constant.data.fill_(case["const"])
    return float(model.mean_module.constant)


def posterior(K, m, noise, y, train, test):
    A = K[np.ix_(train, train)] + noise * np.eye(len(train))
    B = K[np.ix_(test, train)]
    mean = m + B @ np.linalg.solve(A, y[train] - m)
    cov = K[np.ix_(test, test)] - B @ np.linalg.solve(A, B.T)
    return mean, cov + noise * np.eye(len(test)), np.linalg.cond(A)


def check(case, rec):
    import gpytorch
    from pytspl.hogde_gp import HodgeGPTrainer

    model, like, kernel, (xt, yt, xs, ys) = model_of(case)
    keep = [t.clone() for t in (xt, yt, xs, ys)]
    m = the_mean(case, model)
    q = {k: float(getattr(kernel, k)) for k in case["params"]}
    noise, scale = float(like.noise), float(model.covar_module.outputscale)
    ref.need(abs(noise - case["noise"]) <= 1e-4 * noise, "noise")
    K = scale * spectral(case, case["kind"], q)
    y = ref.vec(case["flow"])
    mean, cov, cond = posterior(
        K, m, noise, y, case["train"], case["test"]
    )
    tol = (1e-9 if case["double"] else 2e-5) * max(1.0, cond)
    if tol > 2e-3:
        raise Skip("ill-conditioned in this precision")
    rec.label(case["kind"], "double" if case["double"] else "single")
    rec.mark(
        np.max(np.abs(K[np.ix_(case["test"], case["train"])])) > 1e-3
    )
    tr = HodgeGPTrainer(sc=ref.build(case), y=y)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        pred = tr.predict(model, like, xs, ys)
    s = max(1.0, float(np.max(np.abs(y))), float(np.max(np.abs(K))))
    ref.same(pred.mean, mean, "posterior mean", tol, s)
    ref.same(pred.variance, np.diag(cov), "posterior variance", tol, s)
    with gpytorch.settings.fast_pred_var():
        full = pred.covariance_matrix
    ref.same(full, cov, "posterior covariance", tol, s)
    for a, b, n in zip(
        (xt, yt, xs, ys), keep, ("x_train", "y_train", "x_test", "y_test")
    ):
        ref.need(bool((a == b).all()), f"{n} was changed")
    err = mean - y[case["test"]]
    for name, want in (
        ("MAE", np.mean(np.abs(err))),
        ("MSE", np.mean(err**2)),
    ):
        hit = re.search(name + r": (?:tensor\()?([-+0-9.e]+)", out.getvalue())
        if hit:
            rec.label("metric printed")
            got = float(hit.group(1))
            ref.need(
                abs(got - want) <= 2e-3 * abs(want) + 1e-4 + tol * s * s * 4,
                f"reported {name} {got}, expected {want}",
            )
    # asking again, in another order, gives the same answer
    back = list(range(len(xs)))[::-1]
    with contextlib.redirect_stdout(out):
        pred = tr.predict(model, like, xs[back], ys[back])
    ref.same(pred.mean, mean[back], "posterior mean, second request", tol, s)
    ref.same(
        pred.variance, np.diag(cov)[back], "variance, second request", tol, s
    )


def loss_of(case, p, mats):
    """Negative log marginal likelihood per edge, from raw parameters."""
    import torch

    sp = torch.nn.functional.softplus
    q = {k: sp(v) for k, v in p.items()}
    pairs, kind = mats, case["kind"]
    u0, u1, u2, w0, w1, w2 = pairs

    def mat(u, k):
        return (u * k) @ u.T

    if kind == "diffusion":
        K = (
            q["h"] * mat(u0, torch.ones_like(w0))
            + q["h_down"] * mat(u1, torch.exp(-q["kappa_down"] * w1))
            + q["h_up"] * mat(u2, torch.exp(-q["kappa_up"] * w2))
        )
    elif kind == "diffusion_non_hc":
        K = (
            mat(u0, torch.ones_like(w0))
            + mat(u1, torch.exp(-q["kappa_down"] * w1))
            + mat(u2, torch.exp(-q["kappa_down"] * w2))
        )
    elif kind == "laplacian":
        K = (
            q["mu"] * mat(u0, 1000.0 * torch.ones_like(w0))
            + q["kappa_down"] * mat(u1, 1 / w1)
            + q["kappa_up"] * mat(u2, 1 / w2)
        )
    elif kind == "matern":
        down = (2 * q["mu_down"] / q["kappa_down"] ** 2 + w1) ** -q["mu_down"]
        upp = (2 * q["mu_up"] / q["kappa_up"] ** 2 + w2) ** -q["mu_up"]
        K = (
            q["h"] * mat(u0, q["mu"] * torch.ones_like(w0))
            + q["h_down"] * mat(u1, down)
            + q["h_up"] * mat(u2, upp)
        )
    else:
        a, b = 2 * q["mu_down"] / q["kappa_down"] ** 2, -q["mu_down"]
        K = mat(u0, (a + w0) ** b) + mat(u1, (a + w1) ** b)
        K = K + mat(u2, (a + w2) ** b)
    K = q["outputscale"] * K
    idx = torch.tensor(case["train"])
    n = len(idx)
    A = K[idx][:, idx] + (q["noise"] + 1e-4) * torch.eye(n, dtype=K.dtype)
    y = torch.tensor(case["flow"], dtype=K.dtype)[idx] - p["mean"]
    return 0.5 / n * (
        y @ torch.linalg.solve(A, y)
        + torch.logdet(A)
        + n * float(np.log(2 * np.pi))
    )


def check_train(case, rec):
    import torch
    from pytspl.hogde_gp import HodgeGPTrainer

    model, like, kernel, (xt, yt, _, _) = model_of(case)
    m = the_mean(case, model)
    names = list(case["params"]) + ["noise", "outputscale"]

    def raw_of():
        d = {k: getattr(kernel, f"raw_{k}") for k in case["params"]}
        d["noise"] = like.noise_covar.raw_noise
        d["outputscale"] = model.covar_module.raw_outputscale
        return {k: float(v) for k, v in d.items()}

    p = {
        k: torch.tensor(v, dtype=torch.float64, requires_grad=True)
        for k, v in raw_of().items()
    }
    p["mean"] = torch.tensor(
        m, dtype=torch.float64, requires_grad=case["mean"] != "zero"
    )
    pairs = eigenpairs(case, torch.float64)
    kind = case["opt"] or "Adam"
    rate = 0.1 if case["plain"] else case["rate"]
    opt = getattr(torch.optim, kind)(
        [v for v in p.values() if v.requires_grad], lr=rate
    )
    flat = False
    for _ in range(case["iters"]):
        opt.zero_grad()
        loss_of(case, p, pairs).backward()
        for v in p.values():
            # steps along a vanishing gradient are decided by rounding
            if v.grad is not None and 0 < abs(float(v.grad)) < 1e-6:
                flat = True
        opt.step()
    if flat:
        raise Skip("vanishing gradient")
    steps = []

    class Counted(getattr(torch.optim, kind)):
        def step(self, *args, **kwargs):
            steps.append(len(steps))
            return super().step(*args, **kwargs)

    kw = {"optimizer": Counted} if case["opt"] else {}
    if not case["plain"]:
        kw["learning_rate"] = rate
    tr = HodgeGPTrainer(sc=ref.build(case), y=ref.vec(case["flow"]))
    if case["again"]:
        # the trainer has trained another model before
        first, like1, _, (x1, y1, _, _) = model_of(case)
        first.train()
        like1.train()
        tr.train(first, like1, x1, y1, training_iters=1)
        rec.label("second model of a trainer")
    model.train()
    like.train()
    tr.train(
        model,
        like,
        xt,
        yt,
        training_iters=case["iters"],
        **kw,
    )
    if case["opt"]:
        ref.exact(len(steps), case["iters"], "optimiser steps")
    got = raw_of()
    rec.label(case["kind"], kind, f"{case['iters']} steps")
    rec.mark(case["iters"] >= 2)
    for k in names:
        ref.need(
            abs(got[k] - float(p[k])) <= 1e-5 * max(1.0, abs(float(p[k]))),
            f"raw {k} after {case['iters']} steps of {kind} at rate "
            f"{rate}: {got[k]}, expected {float(p[k])}",
        )
    if case["mean"] != "zero":
        ref.need(
            abs(float(model.mean_module.constant) - float(p["mean"])) <= 1e-5,
            f"mean after training: {float(model.mean_module.constant)}, "
            f"expected {float(p['mean'])}",
        )
    ref.need(tr.model is model, "the trained model is not kept")


def check_pipeline(case, rec):
    """Split, eigenpairs, kernel, training and prediction of one trainer."""
    import gpytorch
    from pytspl.hogde_gp import ExactGPModel, HodgeGPTrainer
    from pytspl.hogde_gp.kernel_serializer import KernelSerializer

    y = ref.vec(case["flow"])
    if np.ptp(y) < 0.1:
        raise Skip("constant targets")
    tr = HodgeGPTrainer(sc=ref.build(case), y=y)
    ratio = (len(case["train"]) + 0.5) / len(y)
    xt, yt, xs, ys, x, ya = tr.train_test_split(
        train_ratio=ratio, data_normalization=case["scale"] > 1, seed=3
    )
    train = [int(i) for i in xt]
    test = [int(i) for i in xs]
    if case["scale"] > 1:
        part = y[train]
        if np.std(part) < 1e-2 * np.max(np.abs(y)):
            raise Skip("constant training targets")
        y = (y - np.mean(part)) / np.std(part, ddof=1)
    kernel = KernelSerializer().serialize(
        eigenpairs=tr.get_eigenpairs(),
        kernel_type=case["kind"],
        data_name="forex",
    )
    like = gpytorch.likelihoods.GaussianLikelihood()
    model = ExactGPModel(xt, yt, like, kernel, mean_function=case["mean"])
    for k, v in case["params"].items():
        setattr(kernel, k, v)
    like.noise = case["noise"]
    model.train()
    like.train()
    tr.train(model, like, xt, yt, training_iters=3)
    pred = tr.predict(model, like, xs, ys)
    q = {k: float(getattr(kernel, k)) for k in case["params"]}
    m = 0.0
    if case["mean"] != "zero":
        m = float(model.mean_module.constant)
    K = float(model.covar_module.outputscale) * spectral(
        case, case["kind"], q
    )
    mean, cov, cond = posterior(K, m, float(like.noise), y, train, test)
    tol = 2e-5 * max(1.0, cond)
    if tol > 2e-3:
        raise Skip("ill-conditioned in this precision")
    s = max(1.0, float(np.max(np.abs(y))), float(np.max(np.abs(K))))
    rec.label(case["kind"])
    rec.mark(np.max(np.abs(K[np.ix_(test, train)])) > 1e-3)
    ref.same(pred.mean, mean, "posterior mean", tol, s)
    ref.same(pred.variance, np.diag(cov), "posterior variance", tol, s)


def check_default(case, rec):
    """The number of steps and the rate when none are given."""
    import torch
    from pytspl.hogde_gp import HodgeGPTrainer

    model, like, _, (xt, yt, _, _) = model_of(case)
    rates = []

    class Still(torch.optim.Optimizer):
        """Counts its steps and leaves the parameters alone."""

        def __init__(self, params, lr):
            super().__init__(params, {"lr": lr})

        def step(self, closure=None):
            rates.append(self.param_groups[0]["lr"])

    model.train()
    like.train()
    tr = HodgeGPTrainer(sc=ref.build(case), y=ref.vec(case["flow"]))
    tr.train(model, like, xt, yt, optimizer=Still)
    ref.exact(len(rates), 1000, "default number of steps")
    ref.need(set(rates) == {0.1}, f"default rates {sorted(set(rates))}")
    rec.mark()


CLAUSES = [
    Clause("pipeline", cases, check_pipeline, 800),
    Clause("prediction", cases, check, 1600),
    Clause("large", lambda: cases(big="large"), check, 80, seeded=True),
    Clause(
        "defaults", lambda: cases(steps=True), check_default, 8, 16, seeded=True
    ),
    Clause("training", lambda: cases(steps=True), check_train, 800),
]
