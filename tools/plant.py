"""plant(id, property, edits, demo, needs, breaks): write /verif/seeded/<id>/.

edits: list of (file, old text, new text); demo: Python source, run with cwd = repository, with
`shim` (iris stand-in) and `cubes` (builders) importable when shim=True.
"""
import difflib
import io
import json
import os
import subprocess
import tarfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BASE = "1991d46"  # the repository as it was given

SH = """#!/bin/bash
# Run with cwd = the repository. Exit 0: behaves as stated; non-zero: broken.
d=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
PYTHONPATH="$PWD" exec /opt/venv/bin/python "$d/demo.py"
"""
BOOT = '''import os
import sys
import tarfile
import tempfile
import warnings

warnings.simplefilter("ignore")
_tmp = tempfile.TemporaryDirectory()
tarfile.open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "shim.tgz")).extractall(_tmp.name)
sys.path.append(os.path.join(_tmp.name, "shim"))
import numpy as np  # noqa: E402

import cubes as c  # noqa: E402

'''
PLAIN = "import numpy as np\n\n"


def _tgz():
    raw = io.BytesIO()
    import gzip

    with gzip.GzipFile(fileobj=raw, mode="wb", mtime=0) as gz, tarfile.open(
            fileobj=gz, mode="w") as tar:
        names = []
        for top in ("iris", "cartopy"):
            for root, dirs, files in os.walk(os.path.join(HERE, "shim", top)):
                dirs[:] = sorted(d for d in dirs if d != "__pycache__")
                names += [os.path.join(root, f) for f in files if not f.endswith(".pyc")]
        items = [(n, "shim/" + os.path.relpath(n, os.path.join(HERE, "shim")))
                 for n in sorted(names)]
        items.append((os.path.join(HERE, "vp", "cubes.py"), "shim/cubes.py"))
        for path, arc in items:
            data = open(path, "rb").read()
            info = tarfile.TarInfo(arc)
            info.size = len(data)
            info.mode = 0o644
            tar.addfile(info, io.BytesIO(data))
    return raw.getvalue()


def plant(id, property, edits, demo, needs, breaks, shim=True):
    d = os.path.join(HERE, "seeded", id)
    os.makedirs(d, exist_ok=True)
    files = {}
    for f, old, new in edits:
        src = files.get(f) or open(os.path.join(REPO, f)).read()
        assert src.count(old) == 1, "%s: %d matches in %s of %r" % (id, src.count(old), f, old)
        base = subprocess.run(["git", "-C", REPO, "show", BASE + ":" + f], text=True,
                              capture_output=True, check=True).stdout
        if old not in base:
            print("%s: the edited text of %s is not in the original repository" % (id, f))
        files[f] = src.replace(old, new)
    with open(os.path.join(d, "patch.diff"), "w") as fh:
        for f, new in files.items():
            compile(new, f, "exec")
            a = open(os.path.join(REPO, f)).read().splitlines(True)
            fh.writelines(difflib.unified_diff(a, new.splitlines(True), "a/" + f, "b/" + f))
    with open(os.path.join(d, "demo.sh"), "w") as fh:
        fh.write(SH)
    with open(os.path.join(d, "demo.py"), "w") as fh:
        fh.write((BOOT if shim else PLAIN) + demo.strip("\n") + "\n")
    if shim:
        with open(os.path.join(d, "shim.tgz"), "wb") as fh:
            fh.write(_tgz())
    with open(os.path.join(d, "meta.json"), "w") as fh:
        json.dump({"property": property, "needs": needs, "what_it_breaks": breaks}, fh, indent=1)
        fh.write("\n")
