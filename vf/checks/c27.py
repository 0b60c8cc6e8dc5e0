"""C27 parameters and covariance of a trained Matern model."""

import numpy as np

from vf import gen, ref, st
from vf.checks.c24 import MATERN, eigenpairs, spectral
from vf.core import Clause

META = {
    "title": "A trained Matern model yields its parameters and exact covariance",
    "statement": (
        "For every complex and trained Matern model, the reported parameters "
        "are the positive hyperparameters of the trained kernel, its noise "
        "and its output scale, each under its own name. The rebuilt "
        "covariance over all edges is the scaled kernel of those parameters: "
        "scale*(h*mu on the harmonic subspace + h_down*Matern(mu_down, "
        "kappa_down) on the gradient + h_up*Matern(mu_up, kappa_up) on the "
        "curl subspace), together with its diagonal as variance, or zero if "
        "the diagonal is constant. Before training, both requests are "
        "rejected with a ValueError."
    ),
    "over": ["inputs", "histories"],
    "quantifier": "every complex, hyperparameters and later change of them",
    "why": "the tests only check that the result is not None",
    "files": ["pytspl/hogde_gp/hodge_gp_trainer.py"],
    "mechanism": [
        {
            "name": "parameters",
            "where": "HodgeGPTrainer.get_model_parameters",
        },
        {
            "name": "covariance from eigenpairs",
            "where": "HodgeGPTrainer.build_matern_kernel",
        },
    ],
}
RULE = (
    "random complex, all eleven parameters distinct, zero to two training "
    "steps, then parameters changed; oracle: spectral definition of the "
    "kernel and the trained kernel's own matrix; non-trivial = gradient and "
    "curl subspace present"
)
NAMES = ["noise", *MATERN, "outputscale"]


@st.composite
def cases(draw, big=True):
    c = draw(gen.complexes(min_nodes=2, max_nodes=8, big=big))
    for k in ("params", "later"):
        c[k] = {n: draw(st.log_floats(0.2, 4.0)) for n in NAMES}
    if draw(st.integers(0, 3)) == 0:
        # far from the usual values
        c["params"] = {n: draw(st.log_floats(0.03, 30.0)) for n in NAMES}
        for n in ("noise", "h", "h_down", "h_up", "outputscale"):
            c["params"][n] = draw(st.log_floats(2e-4, 1e3))
    E = len(c["edges"])
    c["flow"] = [
        x / 100.0
        for x in draw(
            st.lists(st.integers(-300, 300), min_size=E, max_size=E)
        )
    ]
    c["iters"] = draw(st.integers(0, 2))
    return c


def check(case, rec):
    import gpytorch
    import torch
    from pytspl.hogde_gp import ExactGPModel, HodgeGPTrainer
    from pytspl.hogde_gp.kernel_serializer import KernelSerializer

    E = len(case["edges"])
    tr = HodgeGPTrainer(sc=ref.build(case), y=ref.vec(case["flow"]))
    ref.raises(ValueError, tr.get_model_parameters, "parameters, untrained")
    ref.raises(ValueError, tr.build_matern_kernel, "covariance, untrained")
    kernel = KernelSerializer().serialize(
        eigenpairs=eigenpairs(case, torch.float64),
        kernel_type="matern",
        data_name="forex",
    )
    x = torch.arange(E, dtype=torch.float64)
    y = torch.tensor(case["flow"], dtype=torch.float64)
    like = gpytorch.likelihoods.GaussianLikelihood()
    model = ExactGPModel(x, y, like, kernel).double()
    like.double()

    def put(values):
        for k in MATERN:
            setattr(kernel, k, values[k])
        like.noise = values["noise"]
        model.covar_module.outputscale = values["outputscale"]

    def judge(exactly, what):
        got = tr.get_model_parameters()
        ref.exact(
            sorted(got), sorted(f"raw_{n}" for n in NAMES), f"{what}: names"
        )
        if exactly is not None:
            for n in NAMES:
                v = got[f"raw_{n}"]
                ref.need(
                    abs(v - exactly[n]) <= 1e-5 * exactly[n],
                    f"{what}: {n} is {v}, expected {exactly[n]}",
                )
        q = {n: float(getattr(kernel, n)) for n in MATERN}
        q["noise"] = float(like.noise)
        q["outputscale"] = float(model.covar_module.outputscale)
        for n in NAMES:
            ref.need(
                abs(got[f"raw_{n}"] - q[n]) <= 1e-9 * q[n],
                f"{what}: {n} is {got[f'raw_{n}']}, the model has {q[n]}",
            )
        K, var = tr.build_matern_kernel()
        want = q["outputscale"] * spectral(case, "matern", q)
        s = max(1e-3, float(np.max(np.abs(want))))
        ref.same(K, want, f"{what}: covariance", 1e-8, s)
        with torch.no_grad():
            ref.same(
                model.covar_module(x).to_dense(),
                K,
                f"{what}: covariance against the trained kernel",
                1e-8,
                s,
            )
        d = np.diag(want)
        if np.ndim(var) == 0:
            ref.need(
                float(var) == 0.0 and np.ptp(d) <= 2e-5 * np.max(d) + 2e-8,
                f"{what}: variance {var}, diagonal {d.tolist()}",
            )
            rec.label("constant variance")
        else:
            ref.same(var, d, f"{what}: variance", 1e-8, s)
            ref.need(
                np.ptp(d) > 1e-6 * np.max(d),
                f"{what}: constant diagonal {d.tolist()}, variance not zero",
            )

    put(case["params"])
    model.train()
    like.train()
    tr.train(model, like, x, y, training_iters=case["iters"])
    pairs = eigenpairs(case, torch.float64)
    rec.mark(pairs[1].shape[1] and pairs[2].shape[1])
    rec.label(f"{case['iters']} steps")
    judge(case["params"] if case["iters"] == 0 else None, "after training")
    put(case["later"])
    judge(case["later"], "after a change of parameters")


CLAUSES = [
    Clause("matern", cases, check, 2400),
    Clause("large", lambda: cases(big="large"), check, 48, seeded=True),
]
