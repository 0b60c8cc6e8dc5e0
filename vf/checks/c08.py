"""C08 results depend on the inputs only, not on what happened before."""

import numpy as np

from vf import cheb, fresh, gen, ref, st
from vf.core import Clause, Violation

META = {
    "title": "No operation changes a complex or flow, nor any later result",
    "statement": (
        "For every sequence of operations on complexes, flows and reused "
        "builder, filter, plot and trainer objects, loading, reading files "
        "and random generation included, each operation gives the result (returned "
        "value, recorded history, kind of error) it gives on freshly built "
        "objects in a fresh process, whatever was done before, to which "
        "complex, and whether or not the caller overwrote arrays or "
        "dictionaries handed out earlier. No operation changes the "
        "complexes, their features, the given flows or options."
    ),
    "over": ["inputs", "histories"],
    "quantifier": "every complex pair, flow and sequence of operations",
    "why": (
        "every unit test calls one operation on a fresh object; state "
        "carried over, a stale cache or an alias only shows in sequences"
    ),
    "files": [
        "pytspl/simplicial_complex/simplicial_complex.py",
        "pytspl/filters/base_filter.py",
        "pytspl/filters/ls_filter_design.py",
        "pytspl/filters/grid_based_filter_design.py",
        "pytspl/filters/chebyshev_filter_design.py",
        "pytspl/filters/edge_flow_denoising.py",
        "pytspl/filters/simplicial_trend_filter.py",
        "pytspl/hogde_gp/hodge_gp_trainer.py",
        "pytspl/plot/plot.py",
        "pytspl/simplicial_complex/scbuilder.py",
        "pytspl/io/dataset_loader.py",
        "pytspl/io/sc_generator.py",
    ],
    "mechanism": [
        {
            "name": "matrices handed out as copies",
            "where": "SimplicialComplex.tocsr, incidence_matrix",
        },
        {
            "name": "history reset per call",
            "where": "BaseFilter._reset_history, set_history, general_filter",
        },
        {
            "name": "history reset per call (trend filter)",
            "where": "SimplicialTrendFilter.set_history",
        },
    ],
    "technique": (
        "stateful property-based testing: generated operation sequences on "
        "shared objects against the same operation on fresh objects, with "
        "shrinking (Hypothesis)"
    ),
}
RULE = (
    "two random complexes with the same number of nodes and edges (often the "
    "same edges with other directions or triangles), 3 to 25 operations on "
    "shared or new objects, some results overwritten by the caller; oracle: "
    "the same operation on fresh objects, alone in a process of its own; "
    "non-trivial = at least two operations on the same filter object, or on "
    "both complexes"
)
ASSUMPTIONS = [
    "the global random generators are seeded before each operation",
    "importing the package is not an operation: fresh processes are forked "
    "after the import",
]
COMPS = ("gradient", "curl", "harmonic")
PS = ("L1", "L1L", "L1U")
KINDS = [
    "matrices",
    "shift",
    "derive",
    "component",
    "eigen",
    "embedding",
    "features",
    "denoise",
    "ls1",
    "ls2",
    "lsg",
    "grid",
    "gridx",
    "gridg",
    "cheb",
    "stf2",
    "stfop",
    "trainer",
    "plot",
    "error",
    "coeffs",
    "build",
    "stf1",
    "stfi",
    "gp",
    "random",
    "load",
    "read",
    "decompose",
    "kernel",
]


@st.composite
def operation(draw, kinds=KINDS):
    return {
        "kind": draw(st.sampled_from(kinds)),
        "on": draw(st.integers(0, 1)),
        "c": draw(st.sampled_from(COMPS)),
        "p": draw(st.sampled_from(PS)),
        "k": draw(st.integers(1, 4)),
        "mu": draw(st.sampled_from([0.1, 0.5, 2.0])),
        "flow": draw(st.integers(0, 1)),
        "spoil": draw(st.booleans()),
        # on objects of its own, in the same process
        "own": draw(st.sampled_from([0, 0, 0, 1])),
    }


@st.composite
def cases(draw, big=False):
    c = draw(
        gen.complex_flow(
            min_nodes=3,
            max_nodes=6,
            nonzero=True,
            flows=2,
            connected="mostly",
            big=big,
        )
    )
    E = len(c["edges"])
    # flows that a sloppy fingerprint (sum, norm, extremes, first values)
    # takes for the same
    if draw(st.integers(0, 2)):
        y = draw(gen.akin(c["flow"]))
        if y != c["flow"] and any(y):
            c["flow2"] = y
    # the second complex: the same numbers of nodes and edges
    perm = list(draw(st.permutations(list(range(c["n"])))))
    flip = gen.bits(draw, E)
    mode = draw(st.sampled_from(["perm", "flip", "same"]))
    if mode == "perm":
        e2 = [
            [perm[b], perm[a]] if f else [perm[a], perm[b]]
            for (a, b), f in zip(c["edges"], flip)
        ]
    elif mode == "flip":
        e2 = [e[::-1] if f else e for e, f in zip(c["edges"], flip)]
    else:
        e2 = [list(e) for e in c["edges"]]
    t2 = [list(t) for t in gen.cliques3(e2)]
    keep = gen.bits(draw, len(t2))
    c["other"] = {
        "n": c["n"],
        "edges": e2,
        "tris": [t for t, k in zip(t2, keep) if k],
    }
    most = draw(st.sampled_from([6, 6, 9, 9, 25]))
    c["ops"] = draw(st.lists(operation(), min_size=3, max_size=most))
    if draw(st.booleans()):
        # concentrate on one kind of object
        kind = c["ops"][0]["kind"]
        c["ops"] = [
            dict(o, kind=kind) if i % 3 else o for i, o in enumerate(c["ops"])
        ]
    return c


class World:
    """A complex with its flows and the reusable objects built on it."""

    def __init__(self, case, other):
        self.case = dict(case["other"] if other else case)
        n, edges = self.case["n"], [tuple(e) for e in self.case["edges"]]
        self.sc = ref.build(
            self.case,
            node_features={v: {"w": v * 0.5} for v in range(n)},
            edge_features={
                e: {"d": k + 0.25, "name": f"e{k}"}
                for k, e in enumerate(edges)
            },
        )
        self.flows = [
            ref.vec(case["flow"]),
            ref.vec(case["flow2"]),
        ]
        self.mus = np.array([0.3, 1.0, 4.0])
        self.pos = {v: (v % 3 * 1.0, v // 3 + 0.1 * v) for v in range(n)}
        self.snr = np.array([0.0, 10.0])
        self.ratio = np.array([0.4, 0.8])
        self.made = {}

    def get(self, name):
        if name not in self.made:
            import pytspl.filters as F
            from pytspl import SCPlot
            from pytspl.filters import simplicial_trend_filter as T
            from pytspl.hogde_gp import HodgeGPTrainer
            from pytspl.simplicial_complex.scbuilder import SCBuilder

            self.made[name] = {
                "denoise": lambda: F.EdgeFlowDenoising(self.sc),
                "ls": lambda: F.LSFilterDesign(self.sc),
                "grid": lambda: F.GridBasedFilterDesign(self.sc),
                "cheb": lambda: F.ChebyshevFilterDesign(self.sc),
                "stf": lambda: T.SimplicialTrendFilter(self.sc),
                "trainer": lambda: HodgeGPTrainer(self.sc, self.flows[0]),
                "builder": lambda: SCBuilder(
                    nodes=list(range(self.case["n"])),
                    edges=[tuple(e) for e in self.case["edges"]],
                    edge_features={
                        tuple(e): {"distance": k % 4 * 0.5}
                        for k, e in enumerate(self.case["edges"])
                    },
                ),
                "plot": lambda: SCPlot(self.sc, self.pos),
            }[name]()
        return self.made[name]

    def state(self):
        sc = self.sc
        return flat(
            [
                list(sc.nodes),
                [list(e) for e in sc.edges],
                [list(t) for t in sc.triangles],
                repr(sc.get_node_features()),
                repr(sc.get_edge_features()),
                sc.incidence_matrix(rank=1),
                sc.incidence_matrix(rank=2),
                sc.adjacency_matrix(),
                self.flows,
                self.mus,
                self.snr,
                self.ratio,
                repr(self.pos),
            ]
        )


def perform(world, op):
    """Result of one operation as nested plain data."""
    sc, f, kind = world.sc, world.flows[op["flow"]], op["kind"]
    c, p, k, mu = op["c"], op["p"], op["k"], op["mu"]
    if kind == "matrices":
        return [
            [sc.incidence_matrix(rank=r) for r in (0, 1, 2)],
            [sc.hodge_laplacian_matrix(rank=r) for r in (0, 1, 2)],
            sc.lower_laplacian_matrix(rank=1),
            sc.upper_laplacian_matrix(rank=1),
            sc.adjacency_matrix(),
            sc.identity_matrix(),
        ]
    if kind == "shift":
        return [
            sc.apply_lower_shifting(f, steps=k),
            sc.apply_upper_shifting(f, steps=k),
            sc.apply_k_step_shifting(f, steps=k),
        ]
    if kind == "derive":
        return [sc.get_divergence(f), sc.get_curl(f), sc.get_total_variance()]
    if kind == "component":
        return [
            sc.get_component_flow(f, component=c),
            sc.get_component_flow(f, component=c, round_fig=False),
        ]
    if kind == "eigen":
        return list(sc.get_component_eigenpair(component=c, tolerance=mu))
    if kind == "embedding":
        return list(sc.get_simplicial_embeddings(f))
    if kind == "features":
        return [
            repr(sc.get_node_features()),
            repr(sc.get_edge_features()),
            repr(sc.get_edge_features("d")),
            sorted(sc.edge_feature_names()),
            sorted(map(str, sc.get_faces(sc.edges[0]))),
            repr(sc.simplices),
        ]
    if kind == "denoise":
        fil = world.get("denoise")
        if k % 2:
            fil.denoise(f, world.flows[0], p, world.mus)
        else:
            fil.denoise(f, world.flows[0], p)
        return fil.history
    if kind in ("ls1", "ls2", "lsg"):
        fil = world.get("ls")
        out = None
        if kind == "ls1":
            fil.subcomponent_extraction_type_one(f, c, k)
        elif kind == "ls2":
            fil.subcomponent_extraction_type_two(f, c, k)
        else:
            out = fil.general_filter(f=f, L1=k, L2=op["flow"])
        return [out, fil.history]
    if kind in ("grid", "gridx", "gridg"):
        fil = world.get("grid")
        out = None
        if kind == "grid":
            fil.denoise(f=f, f_true=world.flows[1], p_choice=p, L=k, mu=mu)
        elif kind == "gridx":
            fil.subcomponent_extraction(f=f, component=c, p_choice=p, L=k)
        else:
            out = fil.general_filter(f=f, L1=k, L2=op["flow"])
        return [out, fil.history]
    if kind == "cheb":
        fil = world.get("cheb")
        fil.apply(f=f, p_choice=p, component=c, L=k + 1)
        return fil.history
    if kind == "stf2":
        fil = world.get("stf")
        fil.denoising_l2_regularizer(
            f, "curl" if op["flow"] else "divergence", k, world.mus, mu
        )
        return fil.history
    if kind == "stfop":
        fil = world.get("stf")
        return fil.get_shift_operator("curl" if op["flow"] else "divergence", k)
    if kind == "trainer":
        tr = world.get("trainer")
        return [
            tr.get_laplacians(),
            tr.get_incidence_matrices(),
            tr.get_eigenpairs(),
            list(tr.train_test_split(0.6, bool(op["flow"]), k)),
        ]
    if kind == "plot":
        import matplotlib.pyplot as plt

        _, ax = plt.subplots()
        plt.sca(ax)
        kw = {} if k == 3 else {"ax": ax}
        if k == 4:
            kw.update(edge_cmap=plt.cm.Reds, edge_vmin=-2.0, edge_vmax=9.0)
        world.get("plot").draw_network(edge_flow=f if k != 2 else None, **kw)
        n = [
            len(ax.collections),
            len(ax.patches),
            list(ax.get_xlim() + ax.get_ylim()),
            [repr(t.get_text()) for t in ax.texts],
            [t.get_position() for t in ax.texts],
            [x.get_facecolor() for x in ax.patches],
            [len(a.get_ylim()) and a.get_ylim() for a in ax.figure.axes],
        ]
        plt.close("all")
        return n
    if kind == "error":
        bad = [
            lambda: sc.get_component_flow(f, component="x"),
            lambda: world.get("ls").subcomponent_extraction_type_one(f, "x", k),
            lambda: world.get("grid").denoise(f, f, "x", k),
            lambda: world.get("stf").get_shift_operator("x", k),
        ]
        bad[k % 4]()
        return None
    if kind == "coeffs":
        fil = world.get(("ls", "grid", "denoise")[k % 3])
        return [
            fil.get_p_matrix(p),
            fil.get_component_coefficients(c),
            fil.get_true_signal(f, c),
        ]
    if kind == "build":
        b = world.get("builder")
        if k == 1:
            new = b.to_simplicial_complex(condition="all")
        elif k == 2:
            new = b.to_simplicial_complex(
                triangles=[] if op["flow"] else b.triangles()[:1]
            )
        else:
            new = b.to_simplicial_complex(
                condition="distance", dist_threshold=mu
            )
        return [
            repr(new.shape),
            repr(sorted(map(tuple, b.triangles()))),
            new.incidence_matrix(rank=1),
            new.incidence_matrix(rank=2),
            repr(new.get_edge_features()),
        ]
    if kind in ("stf1", "stfi"):
        fil = world.get("stf")
        kw = {
            "flow": f,
            "component": "curl" if op["flow"] else "divergence",
            "num_realizations": 1,
            "order": k % 2,
            "regularization": mu,
        }
        if kind == "stf1":
            fil.denoising_l1_regularizer(snr_db=world.snr, **kw)
        else:
            fil.interpolation_l1_regularizer(ratio=world.ratio, **kw)
        return fil.history
    if kind == "gp":
        return gaussian(world, op)
    if kind == "random":
        from pytspl import generate_random_simplicial_complex

        new, at = generate_random_simplicial_complex(4 + k, 0.7, mu, k)
        return [
            new.incidence_matrix(rank=1),
            new.incidence_matrix(rank=2),
            at,
        ]
    if kind == "load":
        from pytspl import load_dataset

        new, at, flow = load_dataset("siouxfalls" if k == 2 else "paper")
        return [
            new.incidence_matrix(rank=1),
            new.incidence_matrix(rank=2),
            repr(new.get_edge_features()),
            at,
            flow,
        ]
    if kind == "read":
        return reading(world, f)
    if kind == "decompose":
        return decompose(sc, f, p, mu)
    if kind == "kernel":
        return kernels(world, k)
    raise KeyError(kind)


SCRATCH = []


def reading(world, f):
    """The files describe the complex; every time they have the same names."""
    import os
    import shutil
    import tempfile

    from pytspl.io import network_reader as nr

    if not SCRATCH:
        SCRATCH.append(tempfile.mkdtemp())
    case = world.case
    path = os.path.join(SCRATCH[0], "file.csv")
    other = os.path.join(SCRATCH[0], "other.csv")
    os.makedirs(SCRATCH[0], exist_ok=True)

    def write(name, rows):
        with open(name, "w") as fh:
            for row in rows:
                fh.write(",".join(str(x) for x in row) + "\n")

    try:
        rows = [(a, b, float(x)) for (a, b), x in zip(case["edges"], f)]
        write(path, [("s", "t", "w")] + rows)
        net = nr.read_csv(path, ",", "s", "t", ["w"]).to_simplicial_complex()
        out = [
            net.incidence_matrix(rank=1),
            net.incidence_matrix(rank=2),
            repr(net.get_edge_features()),
        ]
        table = nr.read_flow(path, sep=",")
        out += [repr(list(table.columns)), table.to_numpy()]
        rows = [(v, *xy) for v, xy in world.pos.items()]
        write(path, [("id", "x", "y")] + rows)
        out.append(nr.read_coordinates(path, "id", "x", "y", ","))
        if case["tris"]:
            write(path, ref.b1(case).astype(int).tolist())
            write(other, ref.b2(case).T.astype(int).tolist())
            b, tris = nr.read_B1_B2(path, other)
            new = b.to_simplicial_complex(triangles=tris)
            out += [
                new.incidence_matrix(rank=1),
                new.incidence_matrix(rank=2),
            ]
    finally:
        shutil.rmtree(SCRATCH[0], ignore_errors=True)
    return out


def decompose(sc, f, p, mu):
    """The functions of the decomposition, on matrices."""
    from pytspl.decomposition import eigendecomposition as ed
    from pytspl.decomposition import hodge_decomposition as hd

    P = {
        "L1": sc.hodge_laplacian_matrix(rank=1),
        "L1L": sc.lower_laplacian_matrix(rank=1),
        "L1U": sc.upper_laplacian_matrix(rank=1),
    }[p].toarray()
    B1, B2 = sc.incidence_matrix(rank=1), sc.incidence_matrix(rank=2)
    out = [
        list(ed.get_eigendecomposition(P)),
        list(ed.get_eigendecomposition(P, tolerance=mu)),
        list(ed.get_harmonic_eigenpair(P, mu)),
        list(ed.get_gradient_eigenpair(P, mu)),
        list(ed.get_curl_eigenpair(P, mu)),
        ed.get_total_variance(P),
        ed.get_divergence(B1, f),
        ed.get_curl(B2, f),
        hd.get_gradient_flow(B1, f, round_fig=False),
        hd.get_curl_flow(B2, f, round_fig=False),
        hd.get_harmonic_flow(B1, B2, f, round_fig=False),
    ]
    return out + [P]


def kernels(world, k):
    """Kernels of one kind, at two settings."""
    import torch
    from pytspl.hogde_gp.kernel_serializer import KernelSerializer

    name = ("matern", "diffusion", "laplacian", "matern_non_hc")[k - 1]
    pairs = world.get("trainer").get_eigenpairs()
    kernel = KernelSerializer().serialize(
        eigenpairs=pairs, kernel_type=name, data_name="forex"
    )
    x = torch.arange(len(world.case["edges"])).float().unsqueeze(-1)
    out = []
    for value in (0.7, 2.0):
        out.append(kernel(x, x).to_dense().detach())
        out.append(kernel(x, x[:2]).to_dense().detach())
        kernel.kappa_down = value
    return out


def gaussian(world, op):
    """Two training steps, the parameters, and the posterior."""
    import gpytorch
    import torch
    from pytspl.hogde_gp import ExactGPModel
    from pytspl.hogde_gp.kernel_serializer import KernelSerializer

    tr = world.get("trainer")
    xt, yt, xs, ys, _, _ = tr.train_test_split(0.6, False, op["k"])
    kernel = KernelSerializer().serialize(
        eigenpairs=tr.get_eigenpairs(), kernel_type="matern", data_name="forex"
    )
    like = gpytorch.likelihoods.GaussianLikelihood()
    model = ExactGPModel(xt, yt, like, kernel, mean_function=None)
    model.train()
    like.train()
    tr.train(model, like, xt, yt, training_iters=2)
    out = [tr.get_model_parameters(), tr.build_matern_kernel()]
    pred = tr.predict(model, like, xs, ys)
    return out + [pred.mean.detach(), pred.variance.detach()]


def outcome(world, op):
    import torch

    np.random.seed(7)
    torch.manual_seed(3)
    try:
        r = perform(world, op)
        return flat(r), r
    except (KeyError, NameError, ImportError):
        raise
    except Exception as e:
        return [f"raised {type(e).__name__}"], None


def flat(x):
    """Leaves of nested data: arrays and texts, with their place."""
    out = []

    def walk(path, y):
        if isinstance(y, dict):
            out.append(f"{path}:{sorted(map(str, y))}")
            for k in sorted(y, key=str):
                walk(f"{path}.{k}", y[k])
        elif isinstance(y, (list, tuple)):
            out.append(f"{path}:{len(y)}")
            for k, z in enumerate(y):
                walk(f"{path}[{k}]", z)
        elif y is None or isinstance(y, str):
            out.append(f"{path}={y}")
        else:
            out.append(np.array(ref.arr(y), float))

    walk("", x)
    return out


def compare(a, b, what, tol=1e-9):
    ref.need(len(a) == len(b), f"{what}: another form of result")
    for x, y in zip(a, b):
        if isinstance(x, str) or isinstance(y, str):
            if not (isinstance(x, str) and isinstance(y, str) and x == y):
                raise Violation(f"{what}: {str(x)[:300]} instead of {str(y)[:300]}")
            continue
        if x.shape != y.shape:
            raise Violation(f"{what}: shape {x.shape} instead of {y.shape}")
        if not np.allclose(x, y, rtol=tol, atol=tol / 1e3, equal_nan=True):
            raise Violation(
                f"{what}: {np.round(x, 6).tolist()} instead of "
                f"{np.round(y, 6).tolist()}"[:700]
            )


def spoil(x):
    """Overwrites every array in a result."""
    if isinstance(x, dict):
        for y in x.values():
            spoil(y)
    elif isinstance(x, (list, tuple)):
        for y in x:
            spoil(y)
    elif hasattr(x, "toarray"):
        x.data[:] = -77.0
    elif isinstance(x, np.ndarray) and x.flags.writeable and x.size:
        x[...] = -77.0
    elif hasattr(x, "fill_"):
        x.fill_(-77.0)


# iterative solvers and single precision
LOOSE = {"stf1": 1e-5, "stfi": 1e-5, "gp": 1e-4, "kernel": 1e-4}
# the trainer keeps the split it returns and a filter its history, on purpose
SHARED = ("trainer",)


def work(what, case, *rest):
    """Runs in a process of its own."""
    if what == "result":
        (op,) = rest
        return outcome(World(case, op["on"]), op)[0]
    return sequence(case, *rest)


def sequence(case, want):
    """The sequence of operations: what is wrong, or None, and the labels."""
    labels, past = set(), []
    worlds = [World(case, 0), World(case, 1)]
    before = [w.state() for w in worlds]
    try:
        for i, (op, w) in enumerate(zip(case["ops"], want)):
            labels.add(op["kind"])
            name = f"operation {i} {op['kind']} after {past}"
            here = World(case, op["on"]) if op["own"] else worlds[op["on"]]
            got, raw = outcome(here, op)
            if w and isinstance(w[0], str) and w[0].startswith("raised"):
                labels.add("refused")
            compare(got, w, name, LOOSE.get(op["kind"], 1e-9))
            if op["spoil"] and raw is not None and op["kind"] not in SHARED:
                spoil(raw)
                if op["kind"] in ("load", "random", "read"):
                    for x in raw:
                        if isinstance(x, dict):
                            x.clear()
                labels.add("overwritten")
            del here
            past.append(op["kind"])
            for k in (0, 1):
                compare(
                    worlds[k].state(), before[k], f"complex {k} after {past}"
                )
    except Violation as e:
        return str(e), labels
    return None, labels


def ask(*request):
    status, answer = fresh.ask(*request)
    if status != "ok":
        raise Violation(f"unexpected {answer}")
    return answer


def check(case, rec):
    cheb.install()
    if not fresh.running():
        import cvxpy  # noqa: F401  (imported once, not in every process)
        import matplotlib.pyplot  # noqa: F401
        import pytspl.hogde_gp.kernel_serializer  # noqa: F401

        fresh.start(work)
    ops = case["ops"]
    want = [ask("result", case, op) for op in ops]
    used = {}
    for op in ops:
        key = (op["kind"][:3], op["on"])
        used[key] = used.get(key, 0) + 1
    rec.mark(max(used.values()) >= 2 or len({o["on"] for o in ops}) == 2)
    wrong, labels = ask("sequence", case, want)
    rec.label(*labels)
    if wrong:
        raise Violation(wrong)


CLAUSES = [
    Clause("sequences", cases, check, 1600),
    Clause("large", lambda: cases(big="large-tame"), check, 96, seeded=True),
]
