"""Runner: drives generated cases through a property's clauses, shrinks a
failure, writes the replay file and the evidence file."""

import contextlib
import hashlib
import json
import os
import random
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Violation(Exception):
    """The property is broken on this case."""


class Skip(Exception):
    """The case lies outside the property's domain (counted, not judged)."""


class _StopShrinking(BaseException):
    pass


class Rec:
    """What one case reports about itself."""

    def __init__(self):
        self.labels = set()
        self.nontrivial = False

    def label(self, *names):
        self.labels.update(names)

    def mark(self, cond=True):
        if cond:
            self.nontrivial = True


class Clause:
    def __init__(
        self, name, strategy, check, quick, thorough=None, rule="", seeded=False
    ):
        self.name = name
        # cases too large for the native generator: drawn from seeds only,
        # and reduced structurally
        self.seeded = seeded
        self.strategy = strategy  # () -> hypothesis strategy of plain data
        self.check = check  # (case, rec) -> None, raises Violation
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 8
        self.rule = rule


class Fixed:
    """A finite list of cases that is enumerated completely."""

    def __init__(self, name, cases, check, rule=""):
        self.name = name
        self.cases = cases  # (tier) -> list of plain data
        self.check = check
        self.rule = rule


def dumps(case):
    return json.dumps(case, sort_keys=True, default=_plain)


def _plain(o):
    import numpy as np

    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (set, frozenset)):
        return sorted(o)
    return repr(o)


def digest(text):
    return hashlib.sha256(text.encode()).hexdigest()


@contextlib.contextmanager
def quiet():
    """Silences what the code under test prints."""
    with open(os.devnull, "w") as null:
        with contextlib.redirect_stdout(null):
            with contextlib.redirect_stderr(null):
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    yield


def _where(e):
    return " <- ".join(
        f"{os.path.basename(f.filename)}:{f.lineno}"
        for f in reversed(traceback.extract_tb(e.__traceback__)[-4:])
    )


def run_case(clause, case):
    """Runs one case. Returns (status, message, rec): status is one of
    'ok', 'skip', 'bad'. A harness error propagates."""
    import numpy as np
    import torch

    rec = Rec()
    random.seed(12345)
    np.random.seed(12345)
    torch.manual_seed(12345)
    # the case is always what a replay would read back
    case = json.loads(dumps(case))
    try:
        with quiet():
            clause.check(case, rec)
        return "ok", "", rec
    except Skip as e:
        return "skip", str(e), rec
    except Violation as e:
        return "bad", str(e), rec
    except (ImportError, MemoryError, SyntaxError):
        raise
    except (NameError, AttributeError) as e:
        tb = traceback.extract_tb(e.__traceback__)
        if "module 'vf" in str(e) or (
            isinstance(e, NameError) and tb[-1].filename.startswith(VERIF)
        ):
            raise  # a mistake in the harness
        return "bad", f"unexpected {type(e).__name__}: {e} [{_where(e)}]", rec
    except Exception as e:
        # The harness only calls the public interface with inputs of the
        # documented domain, so an exception here is the code's answer.
        return "bad", f"unexpected {type(e).__name__}: {e} [{_where(e)}]", rec
    finally:
        try:
            import matplotlib.pyplot as plt

            plt.close("all")
        except Exception:
            pass


def _run_clause(clause, tier, seed, shard, shards, out):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis import strategies as hst

    total = clause.quick if tier == "quick" else clause.thorough
    share = total // shards + (1 if shard < total % shards else 0)
    if share == 0:
        return None
    stats = out["clauses"].setdefault(
        clause.name,
        {"evaluations": 0, "skipped": 0, "labels": {}, "samples": []},
    )
    state = {"bad": None, "t0": None}

    def body(case):
        if state["t0"] is not None and time.time() - state["t0"] > 40:
            raise _StopShrinking()
        status, msg, rec = run_case(clause, case)
        if state["t0"] is None:
            stats["evaluations"] += 1
            if status == "skip":
                stats["skipped"] += 1
            for lab in rec.labels:
                stats["labels"][lab] = stats["labels"].get(lab, 0) + 1
            if rec.nontrivial:
                text = dumps(case)
                out["hashes"].add(digest(clause.name + text)[:16])
                if len(stats["samples"]) < 2 and len(text) < 1500:
                    stats["samples"].append(json.loads(text))
        if status == "bad":
            if state["t0"] is None:
                state["t0"] = time.time()
            text = dumps(case)
            best = state["bad"]
            if best is None or len(text) <= len(best[0]):
                state["bad"] = (text, msg)
            raise Violation(msg)

    def settings_of(n, shrink):
        phases = [Phase.generate] + ([Phase.shrink] if shrink else [])
        return settings(
            max_examples=n,
            database=None,
            deadline=None,
            derandomize=False,
            report_multiple_bugs=False,
            print_blob=False,
            suppress_health_check=list(HealthCheck),
            phases=phases,
        )

    def drive(tag, strategy, n, shrink):
        hseed = int(digest(f"{seed}/{shard}/{clause.name}/{tag}")[:12], 16)
        test = hypothesis.seed(hseed)(
            settings_of(n, shrink)(given(strategy)(body))
        )
        before = state["bad"]
        try:
            with open(os.devnull, "w") as null:
                with contextlib.redirect_stdout(null):
                    test()
        except _StopShrinking:
            pass
        except BaseException:
            if state["bad"] is before:
                raise

    strat = clause.strategy()
    native = 0 if clause.seeded else max(1, share // 5)
    # exploration: cases from generated seeds, full control of distribution
    explore = hst.integers(0, 2**62).map(
        lambda k: strat.rnd(random.Random(f"{seed}/{shard}/{k}/{clause.name}"))
    )
    drive("explore", explore, max(1, share - native), False)
    if state["bad"] is None:
        # the native generator adds the library's own edge-case bias
        if native:
            drive("native", strat.hyp, native, True)
    elif clause.seeded:
        state["bad"] = _reduce(clause, state["bad"])
    else:
        first = state["bad"]
        state["t0"] = time.time()
        drive("shrink", strat.hyp, 400, True)
        if state["bad"] == first:
            state["bad"] = _reduce(clause, first)
    if state["bad"] is not None:
        return {
            "clause": clause.name,
            "case": json.loads(state["bad"][0]),
            "message": state["bad"][1],
        }
    return None


def _reduce(clause, bad):
    """Structural reduction of a case that describes a complex, for the rare
    failure that the native generator does not meet again."""
    case = json.loads(bad[0])
    best = bad
    t0 = time.time()
    if not isinstance(case, dict) or "edges" not in case or "tris" not in case:
        return bad
    least = 1 if case["tris"] else 0  # triangles may be part of the domain

    def without(c, gone):
        """The complex without some edges, and what is listed per edge."""
        d = json.loads(json.dumps(c))
        E = len(c["edges"])
        drop = {frozenset(c["edges"][e]) for e in gone}
        d["edges"] = [x for e, x in enumerate(d["edges"]) if e not in gone]
        d["tris"] = [
            t
            for t in d["tris"]
            if not any(
                frozenset(p) in drop
                for p in ((t[0], t[1]), (t[1], t[2]), (t[0], t[2]))
            )
        ]
        for k in c:
            if k.startswith("flow") and isinstance(c[k], list):
                if len(c[k]) == E:
                    d[k] = [x for e, x in enumerate(d[k]) if e not in gone]
        return d

    def candidates(c):
        E = len(c["edges"])
        step = E // 2
        while step > 1:
            for a in range(0, E, step):
                d = without(c, set(range(a, min(E, a + step))))
                if d["edges"] and len(d["tris"]) >= least:
                    yield d
            step //= 2
        if len(c["tris"]) > 20:
            d = json.loads(json.dumps(c))
            d["tris"] = d["tris"][::2]
            yield d
        for t in range(len(c["tris"])):
            d = json.loads(json.dumps(c))
            d["tris"].pop(t)
            if len(d["tris"]) >= least:
                yield d
        for e in range(E):
            if E == 1:
                break
            d = without(c, {e})
            if len(d["tris"]) >= least:
                yield d

    progress = True
    while progress and time.time() - t0 < 25:
        progress = False
        for d in candidates(case):
            if any(
                len(d[k]) != len(case[k])
                for k in d
                if k not in ("tris", "edges")
                and not k.startswith("flow")
                and isinstance(d[k], list)
            ):
                continue
            status, msg, _ = run_case(clause, d)
            if status == "bad" and msg.startswith("unexpected") == best[
                1
            ].startswith("unexpected"):
                case, best = d, (dumps(d), msg)
                progress = True
                break
            if time.time() - t0 > 25:
                break
    return best


def _run_fixed(clause, tier, shard, shards, out):
    stats = out["clauses"].setdefault(
        clause.name,
        {"evaluations": 0, "skipped": 0, "labels": {}, "samples": []},
    )
    for i, case in enumerate(clause.cases(tier)):
        if i % shards != shard:
            continue
        status, msg, rec = run_case(clause, case)
        stats["evaluations"] += 1
        if status == "skip":
            stats["skipped"] += 1
        for lab in rec.labels:
            stats["labels"][lab] = stats["labels"].get(lab, 0) + 1
        if rec.nontrivial:
            out["hashes"].add(digest(clause.name + dumps(case))[:16])
            if len(stats["samples"]) < 2:
                stats["samples"].append(json.loads(dumps(case)))
        if status == "bad":
            return {"clause": clause.name, "case": case, "message": msg}
    return None


def _shard_main(mod, tier, seed, shard, shards, path):
    out = {"clauses": {}, "hashes": set(), "violation": None, "error": None}
    try:
        only = os.environ.get("VERIF_CLAUSE")
        for clause in mod.CLAUSES:
            if only and clause.name != only:
                continue
            if isinstance(clause, Fixed):
                bad = _run_fixed(clause, tier, shard, shards, out)
            else:
                bad = _run_clause(clause, tier, seed, shard, shards, out)
            if bad is not None:
                out["violation"] = bad
                break
    except BaseException:
        out["error"] = traceback.format_exc()
    out["hashes"] = sorted(out["hashes"])
    with open(path, "w") as fh:
        json.dump(out, fh, default=_plain)


def run_check(prop, mod, tier, seed):
    t0 = time.time()
    shards = int(os.environ.get("VERIF_SHARDS", "0")) or min(
        8, os.cpu_count() or 1
    )
    tmp = tempfile.mkdtemp(prefix=f"vf-{prop}-")
    results = []
    try:
        if hasattr(mod, "prepare"):
            mod.prepare(tmp, tier)
        pids = []
        for s in range(shards):
            path = os.path.join(tmp, f"shard{s}.json")
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    _shard_main(mod, tier, seed, s, shards, path)
                except BaseException:
                    traceback.print_exc()
                    code = 3
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            pids.append((pid, path))
        for pid, path in pids:
            _, status = os.waitpid(pid, 0)
            if os.path.exists(path):
                results.append(json.load(open(path)))
            else:
                results.append(
                    {
                        "clauses": {},
                        "hashes": [],
                        "violation": None,
                        "error": f"worker ended with status {status}",
                    }
                )
    finally:
        import shutil

        shutil.rmtree(tmp, ignore_errors=True)

    clauses, hashes = {}, set()
    for r in results:
        hashes.update(r["hashes"])
        for name, s in r["clauses"].items():
            c = clauses.setdefault(
                name,
                {"evaluations": 0, "skipped": 0, "labels": {}, "samples": []},
            )
            c["evaluations"] += s["evaluations"]
            c["skipped"] += s["skipped"]
            for k, v in s["labels"].items():
                c["labels"][k] = c["labels"].get(k, 0) + v
            c["samples"] += s["samples"]
    bad = [r["violation"] for r in results if r["violation"]]
    errors = [r["error"] for r in results if r["error"]]
    known = _known(prop, mod)

    rules = [mod.RULE] + [
        f"{c.name}: {c.rule}" for c in mod.CLAUSES if c.rule
    ]
    samples = []
    for name in sorted(clauses):
        for s in clauses[name]["samples"][:2]:
            samples.append({"clause": name, "case": s})
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(c["evaluations"] for c in clauses.values()),
            "distinct_nontrivial": len(hashes),
            "rule": " | ".join(rules),
            "samples": samples[:24],
            "clauses": {
                n: {
                    "evaluations": c["evaluations"],
                    "outside_domain": c["skipped"],
                    "classes": dict(sorted(c["labels"].items())),
                }
                for n, c in sorted(clauses.items())
            },
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(bad),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=_plain)
        fh.write("\n")

    if bad:
        bad.sort(key=lambda b: len(dumps(b["case"])))
        b = bad[0]
        rp = os.path.join(EVIDENCE, f"replay-{prop}.json")
        with open(rp, "w") as fh:
            json.dump({"property": prop, **b}, fh, indent=1, default=_plain)
            fh.write("\n")
        print(f"{prop} {b['clause']}: {b['message']}"[:2000])
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    if errors:
        print(errors[0], file=sys.stderr)
        print(f"{prop}: harness error", file=sys.stderr)
        return 3
    for line in known:
        print(line)
    empty = [
        c.name
        for c in mod.CLAUSES
        if clauses.get(c.name, {}).get("evaluations", 0) == 0
    ]
    if empty and not os.environ.get("VERIF_CLAUSE"):
        print(f"{prop}: clauses without a case: {empty}", file=sys.stderr)
        return 3
    print(
        f"{prop}: held on {ev['coverage']['evaluations']} cases "
        f"({len(hashes)} distinct non-trivial), {ev['wall_s']} s"
    )
    return 0


def listed(prop, key):
    """Is this finding recorded in the committed list?"""
    if (prop, key) not in _LISTED:
        _LISTED[(prop, key)] = os.path.exists(KNOWN) and any(
            line.startswith(f"finding: property={prop} case={key} ")
            for line in open(KNOWN)
        )
    return _LISTED[(prop, key)]


_LISTED = {}


def _known(prop, mod):
    """The recorded findings of this property that still fail."""
    lines = []
    table = getattr(mod, "KNOWN", {})
    if not table or not os.path.exists(KNOWN):
        return lines
    for line in open(KNOWN):
        line = line.strip()
        if not line.startswith(f"finding: property={prop} "):
            continue
        rest = line.split(" ", 2)[2]
        key = rest.split(" ", 1)[0].replace("case=", "")
        what = rest.split(" ", 1)[1]
        if key in table:
            clause, case = table[key]
            status, _, _ = run_case(clause, case)
            if status == "bad":
                lines.append(
                    f"KNOWN-FINDING: property={prop} {key} {what}"
                )
    return lines


def replay(prop, mod, path):
    data = json.load(open(path))
    for clause in mod.CLAUSES:
        if clause.name == data["clause"]:
            if hasattr(mod, "prepare"):
                mod.prepare(tempfile.mkdtemp(prefix="vf-replay-"), "quick")
            status, msg, _ = run_case(clause, data["case"])
            print(status, msg)
            if status == "bad":
                print(f"VIOLATION property={prop} replay={path}")
                return 1
            return 0
    print("no such clause", file=sys.stderr)
    return 3
