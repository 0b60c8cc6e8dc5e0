"""Process set-up shared by every check: deterministic environment, the code
under test loaded from source, and the property-testing library."""

import importlib.abc
import importlib.machinery
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
HYP_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
WHEELS = "/opt/veriftools/wheels"

for _k, _v in {
    "MPLBACKEND": "Agg",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
}.items():
    os.environ[_k] = _v

sys.dont_write_bytecode = True


class _HypothesisFinder(importlib.abc.MetaPathFinder):
    """Exposes only Hypothesis and its dependency, nothing else of the tool
    environment, so that the code under test keeps its own libraries."""

    def __init__(self):
        self.paths = [HYP_SITE]

    def find_spec(self, name, path=None, target=None):
        if path is not None:
            return None
        if name not in ("hypothesis", "sortedcontainers") and not (
            name.startswith("_hypothesis")
        ):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, self.paths)
        if spec is None:
            self._unpack()
            spec = importlib.machinery.PathFinder.find_spec(name, self.paths)
        return spec

    def _unpack(self):
        import glob
        import tempfile
        import zipfile

        dest = tempfile.mkdtemp(prefix="vf-deps-")
        pats = ("hypothesis-*cp312-cp312*.whl", "sortedcontainers-*.whl")
        for pat in pats:
            for whl in sorted(glob.glob(os.path.join(WHEELS, pat))):
                zipfile.ZipFile(whl).extractall(dest)
        self.paths.append(dest)


class _SourceLoader(importlib.machinery.SourceFileLoader):
    """Always compiles from the source text: a stale .pyc is never used."""

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


class _RepoFinder(importlib.abc.MetaPathFinder):
    def __init__(self, root):
        self.root = root

    def find_spec(self, name, path=None, target=None):
        if name != "pytspl" and not name.startswith("pytspl."):
            return None
        base = os.path.join(self.root, *name.split("."))
        init = os.path.join(base, "__init__.py")
        if os.path.isfile(init):
            spec = importlib.machinery.ModuleSpec(
                name, _SourceLoader(name, init), origin=init, is_package=True
            )
            spec.submodule_search_locations = [base]
        elif os.path.isfile(base + ".py"):
            fn = base + ".py"
            spec = importlib.machinery.ModuleSpec(
                name, _SourceLoader(name, fn), origin=fn
            )
        elif os.path.isdir(base):
            return None
        else:
            return None
        spec.has_location = True
        return spec


def install(root=None):
    root = root or REPO
    sys.meta_path.insert(0, _RepoFinder(root))
    sys.meta_path.append(_HypothesisFinder())
    sys.path.insert(0, root)
    import warnings

    warnings.simplefilter("ignore")
    import pytspl

    if not os.path.realpath(pytspl.__file__).startswith(
        os.path.realpath(root) + os.sep
    ):
        raise RuntimeError(f"wrong pytspl: {pytspl.__file__}")
    import torch

    torch.set_num_threads(1)
    return pytspl
