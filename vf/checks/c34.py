"""C34 process-wide state (random generators, settings, files)."""

import locale
import os
import random
import shutil
import signal
import sys
import tempfile
import threading
import warnings

import numpy as np

from vf import cheb, gen, ref, st
from vf.checks import c08
from vf.core import Clause

cheb.install()

META = {
    "title": "Operations leave random generators, settings and files alone",
    "statement": (
        "For every complex and sequence of operations (analyses, filters, "
        "kernels, training, plots, reading, loading, generating), each "
        "operation leaves the process as it was: the generators of Python "
        "and PyTorch, NumPy's error handling and print options, matplotlib's "
        "settings and open figures, PyTorch's default type and gradient mode, "
        "warning filters, logging, environment, working directory and the "
        "files in it. Only the trend filter's noise and sampling use NumPy's "
        "generator: they advance it, never reseed it, and repeat exactly when "
        "it is seeded alike. No other operation changes any generator, and "
        "none of their results depend on one, nor on the working directory."
    ),
    "over": ["inputs", "histories"],
    "quantifier": "every complex, sequence of operations, generator states",
    "why": (
        "a test sees the value an operation returns, not the generator or "
        "setting it left changed, nor that another seed gives another result"
    ),
    "files": [
        "pytspl/simplicial_complex/simplicial_complex.py",
        "pytspl/decomposition/eigendecomposition.py",
        "pytspl/filters/simplicial_trend_filter.py",
        "pytspl/filters/base_filter.py",
        "pytspl/hogde_gp/hodge_gp_trainer.py",
        "pytspl/io/sc_generator.py",
        "pytspl/plot/plot.py",
    ],
    "mechanism": [
        {
            "name": "noise and sampling",
            "where": "SimplicialTrendFilter.*_regularizer",
        },
        {
            "name": "generators of their own",
            "where": "generate_random_simplicial_complex, HodgeGPTrainer.train_test_split",
        },
    ],
}
RULE = (
    "random complex and flows, two to six operations, each from two random "
    "states of all generators and in two empty directories; oracle: the "
    "state of the process before the operation, and the result from the "
    "other state; non-trivial = at least two kinds of operation"
)
ASSUMPTIONS = [
    "modules that an operation imports on its first use may change settings "
    "while they are imported: every operation runs once beforehand",
]

EXTRA = ["power", "summary", "panels", "filters"]
RANDOM = ("stf1", "stfi", "stf2")
LOOSE = dict(c08.LOOSE, stf2=1e-9)
READY = []
# what operations could change once and for all, even the first one
FIXED = (
    "threads of PyTorch",
    "settings of gpytorch",
    "algorithms of PyTorch",
    "locale",
)
ORIGINAL = {}


class Probe(Warning):
    """A category that nothing else filters."""


def perform(world, op):
    kind, k = op["kind"], op["k"]
    sc, f = world.sc, world.flows[op["flow"]]
    if kind == "power":
        fil = world.get("grid")
        return fil.power_iteration(fil.get_p_matrix(op["p"]))
    if kind == "summary":
        sc.print_summary()
        return None
    if kind == "panels":
        import matplotlib.pyplot as plt

        p = world.get("plot")
        if k % 2:
            p.draw_hodge_decomposition(flow=f)
        else:
            p.draw_eigenvectors(component=op["c"])
        plt.close("all")
        return None
    if kind == "filters":
        import matplotlib.pyplot as plt

        fil = world.get("cheb")
        fil.apply(f=f, p_choice=op["p"], component=op["c"], L=k + 1)
        if k % 2:
            fil.plot_chebyshev_series_approx(op["p"])
        else:
            fil.plot_frequency_response_approx(flow=f, component=op["c"])
        plt.close("all")
        return None
    return c08.perform(world, op)


def seed_all(a):
    import torch

    random.seed(a)
    np.random.seed(a)
    torch.manual_seed(a)


def same_state(a, b):
    return all(
        np.array_equal(x, y) if isinstance(x, np.ndarray) else x == y
        for x, y in zip(a, b)
    )


def generators():
    import torch

    s = np.random.get_state()
    return {
        "Python": (repr(hash(random.getstate())),),
        "NumPy": (s[0], np.array(s[1]), s[2], s[3], s[4]),
        "PyTorch": (torch.get_rng_state().numpy().copy(),),
    }


def settings(where):
    import logging

    import gpytorch
    import matplotlib
    import matplotlib.pyplot as plt
    import pandas as pd
    import torch

    return {
        "error handling of NumPy": dict(np.geterr()),
        "print options of NumPy": repr(np.get_printoptions()),
        "settings of matplotlib": {
            k: repr(v) for k, v in dict.items(matplotlib.rcParams)
        },
        "open figures": plt.get_fignums(),
        "default type of PyTorch": repr(torch.get_default_dtype()),
        "gradient mode of PyTorch": torch.is_grad_enabled(),
        "threads of PyTorch": torch.get_num_threads(),
        "settings of gpytorch": [
            gpytorch.settings.fast_pred_var.on(),
            gpytorch.settings.debug.on(),
            gpytorch.settings.fast_computations.log_prob.on(),
            gpytorch.settings.max_cholesky_size.value(),
            gpytorch.settings.cholesky_jitter.value(torch.float32),
        ],
        "warning filters": [repr(x) for x in warnings.filters],
        "logging": [
            logging.root.level,
            len(logging.root.handlers),
            logging.root.manager.disable,
        ],
        "options of pandas": [
            pd.get_option(x)
            for x in (
                "mode.chained_assignment",
                "display.precision",
                "display.max_rows",
                "display.float_format",
            )
        ],
        "environment": dict(os.environ),
        "module search path": list(sys.path),
        "algorithms of PyTorch": [
            torch.are_deterministic_algorithms_enabled(),
            torch.is_anomaly_enabled(),
            torch.is_inference_mode_enabled(),
        ],
        "standard streams": [id(sys.stdout), id(sys.stderr)],
        "threads": threading.active_count(),
        "locale": locale.setlocale(locale.LC_ALL),
        "recursion limit": sys.getrecursionlimit(),
        "signal handlers": [
            repr(signal.getsignal(x)) for x in (signal.SIGINT, signal.SIGTERM)
        ],
        "working directory": os.getcwd(),
        "files in the working directory": sorted(os.listdir(where)),
    }


def usual():
    """Settings that no operation would set by itself."""
    import logging

    import matplotlib
    import matplotlib.pyplot as plt
    import pandas as pd
    import torch

    plt.close("all")
    np.seterr(divide="warn", over="warn", under="warn", invalid="warn")
    np.set_printoptions(precision=7, linewidth=79, suppress=False)
    matplotlib.rcParams.update(
        {
            "font.size": 9.25,
            "figure.figsize": (6.25, 4.75),
            "figure.dpi": 97.0,
            "axes.grid": False,
            "lines.linewidth": 1.35,
            "image.cmap": "cividis",
        }
    )
    torch.set_default_dtype(torch.float32)
    torch.set_grad_enabled(True)
    logging.root.setLevel(33)
    logging.disable(0)
    pd.set_option("display.precision", 5)
    pd.set_option("display.max_rows", 57)
    warnings.simplefilter("default", category=Probe)


def outcome(world, op):
    try:
        return c08.flat(perform(world, op))
    except (KeyError, NameError, ImportError):
        raise
    except Exception as e:
        return [f"raised {type(e).__name__}"]


@st.composite
def cases(draw, big=False):
    c = draw(
        gen.complex_flow(
            min_nodes=3,
            max_nodes=6,
            nonzero=True,
            flows=2,
            connected="mostly",
            big=big,
        )
    )
    c["other"] = {k: c[k] for k in ("n", "edges", "tris")}
    kinds = c08.KINDS + EXTRA + list(RANDOM)
    c["ops"] = draw(
        st.lists(c08.operation(kinds=kinds), min_size=2, max_size=6)
    )
    a = draw(st.integers(0, 10**6))
    c["seeds"] = [a, a + draw(st.integers(1, 10**6))]
    return c


def observe(case, op, seed):
    """The result of an operation, and what it changed: generators, others."""
    here = os.getcwd()
    where = tempfile.mkdtemp()
    world = c08.World(case, 0)
    try:
        os.chdir(where)
        with warnings.catch_warnings():
            usual()
            seed_all(seed)
            first, was = generators(), settings(where)
            result = outcome(world, op)
            last, now = generators(), settings(where)
    finally:
        os.chdir(here)
        shutil.rmtree(where, ignore_errors=True)
    return result, first, last, was, now


def warm(case):
    if READY:
        return
    import cvxpy  # noqa: F401
    import pytspl.hogde_gp.kernel_serializer  # noqa: F401
    import sklearn.model_selection  # noqa: F401

    usual()
    first = settings(os.getcwd())
    ORIGINAL.update({k: first[k] for k in FIXED})
    for kind in c08.KINDS + EXTRA:
        for k in (1, 2):
            op = {
                "kind": kind,
                "on": 0,
                "c": "gradient",
                "p": "L1",
                "k": k,
                "mu": 0.5,
                "flow": 0,
            }
            observe(WARM, op, 5)
    READY.append(True)


WARM = {
    "n": 4,
    "edges": [[0, 1], [0, 2], [1, 2], [2, 3]],
    "tris": [[0, 1, 2]],
    "flow": [1.0, 2.0, -1.0, 0.5],
    "flow2": [0.5, 2.0, 3.0, 0.25],
}
WARM["other"] = WARM


def check(case, rec):
    warm(case)
    rec.mark(len({o["kind"] for o in case["ops"]}) >= 2)
    one, two = case["seeds"]
    for op in case["ops"]:
        kind = op["kind"]
        rec.label(kind)
        got, first, last, was, now = observe(case, op, one)
        was.update(ORIGINAL)
        for key in was:
            if was[key] != now[key]:
                diff = (was[key], now[key])
                if isinstance(was[key], dict):
                    diff = [
                        (k, was[key].get(k), now[key].get(k))
                        for k in set(was[key]) | set(now[key])
                        if was[key].get(k) != now[key].get(k)
                    ]
                ref.need(False, f"{kind} changed the {key}: {str(diff)[:400]}")
        done = not (got and isinstance(got[0], str) and got[0][:6] == "raised")
        used = kind in RANDOM
        if not done:
            rec.label(f"{kind} refused")
        for g in first:
            ref.need(
                same_state(first[g], last[g]) or used and g == "NumPy",
                f"{kind} changed the random generator of {g}",
            )
        again, _, last2, _, _ = observe(case, op, one if used else two)
        tol = LOOSE.get(kind, 1e-9)
        if not used:
            c08.compare(again, got, f"{kind} with other random states", tol)
            continue
        rec.label("drew random numbers")
        c08.compare(again, got, f"{kind} with the same random state", tol)
        if not done:
            continue
        ref.need(
            not same_state(first["NumPy"], last["NumPy"]),
            f"{kind} did not use NumPy's generator",
        )
        ref.need(
            same_state(last2["NumPy"], last["NumPy"]),
            f"{kind} ended in two states from the same state",
        )
        other, _, last2, _, _ = observe(case, op, two)
        ref.need(
            not same_state(last2["NumPy"], last["NumPy"]),
            f"{kind} reset NumPy's generator",
        )


CLAUSES = [
    Clause("operations", cases, check, 800),
    Clause("large", lambda: cases(big="large-tame"), check, 32, seeded=True),
]
