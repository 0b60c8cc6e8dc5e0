"""A scratch copy of the package whose transportation data folder can take
generated datasets; the original data is linked, never written."""

import os
import shutil
import tempfile

from vf.boot import REPO


def make():
    root = tempfile.mkdtemp(prefix="vf-mirror-")
    src = os.path.join(REPO, "pytspl")
    dst = os.path.join(root, "pytspl")

    def skip(folder, names):
        out = [n for n in names if n == "__pycache__"]
        if folder == src and "data" in names:
            out.append("data")
        return out

    shutil.copytree(src, dst, ignore=skip)
    data = os.path.join(dst, "data")
    nets = os.path.join(data, "transportation_networks")
    os.makedirs(nets)
    for base, to, leave in (
        (os.path.join(src, "data"), data, ("transportation_networks",)),
        (os.path.join(src, "data", "transportation_networks"), nets, ()),
    ):
        for name in os.listdir(base):
            if name not in leave:
                os.symlink(os.path.join(base, name), os.path.join(to, name))
    return root


def drop(root):
    shutil.rmtree(root, ignore_errors=True)
