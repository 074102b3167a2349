"""Mutation runner (PyPy): mutrun.py CHECK.py JOBS.json OUT.json   (see mutate.py)"""
import gc
import importlib.abc
import importlib.util
import json
import os
import signal
import sys
import time
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
REPO = os.environ["VERIF_REPO"]
warnings.simplefilter("ignore")
import numpy as np  # noqa
import scipy.ndimage, scipy.stats, scipy.interpolate, scipy.signal  # noqa

try:
    import dask.array, cftime, cf_units, netCDF4  # noqa
except ImportError:
    pass
import iris, iris.cube, iris.analysis, cartopy.crs  # noqa
from vp import worker, oracle  # noqa

np.seterr(all="ignore")
assert not any(m.split(".")[0] == "improver" for m in sys.modules), "improver was imported early"


class Loader(importlib.abc.SourceLoader):
    def __init__(self, path, text):
        self.path, self.text = path, text

    def get_filename(self, name):
        return self.path

    def get_data(self, path):
        return self.text.encode()


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, rel, text):
        self.name = rel[:-3].replace("/", ".")
        self.package = self.name.endswith(".__init__")
        if self.package:
            self.name = self.name[:-9]
        self.loader = Loader(os.path.join(REPO, rel), text)

    def find_spec(self, name, path, target=None):
        if name == self.name:
            return importlib.util.spec_from_file_location(
                name, self.loader.path, loader=self.loader,
                submodule_search_locations=[os.path.dirname(self.loader.path)] if self.package else None)
        return None


def child(check, cases, job, out, trace=None):
    signal.signal(signal.SIGVTALRM, worker._on_alarm)
    worker.CPU_LIMIT = 15
    if job.get("text") is not None:
        sys.meta_path.insert(0, Finder(job["file"], job["text"]))
    res = {"status": "survived", "n": 0}
    lines = {}
    try:
        if trace:
            def local(frame, event, arg):
                if event == "line":
                    lines.setdefault(frame.f_code.co_filename, set()).add(frame.f_lineno)
                return local

            def glob(frame, event, arg):
                if frame.f_code.co_filename.startswith(REPO + "/improver"):
                    lines.setdefault(frame.f_code.co_filename, set()).add(frame.f_lineno)
                    return local
                return None
            sys.settrace(glob)
        module = worker.load_check(check)
        if hasattr(module, "worker_setup"):
            module.worker_setup()
        und = 0
        for n, (sub, case) in enumerate(cases):
            ans = worker.handle(module, {"sub": sub, "case": case}, os.path.join(HERE, "shim") + "/")
            res["n"] = n + 1
            if ans["status"] == "fail":
                res.update(status="killed", sub=sub, msg=ans["msg"][:300])
                if job.get("text") is not None:
                    break
                res.setdefault("fails", []).append((sub, n, ans["msg"][:200]))
            elif ans["status"] == "unsupported":
                und += 1
        res["undecided"] = und
    except BaseException as exc:  # noqa
        res.update(status="killed", msg="load: %r" % exc)
    sys.settrace(None)
    if trace:
        res["lines"] = {os.path.relpath(f, REPO): sorted(v) for f, v in lines.items()}
    with open(out, "w") as fh:
        json.dump(res, fh)
    os._exit(0)


def main():
    check, jobfile, outfile = sys.argv[1:4]
    spec = json.load(open(jobfile))
    cases, jobs = spec["cases"], spec["jobs"]
    nproc, limit = spec.get("nproc", 8), spec.get("limit", 90)
    results = [None] * len(jobs)
    running = {}
    todo = list(range(len(jobs)))[::-1]
    gc.collect()
    while todo or running:
        while todo and len(running) < nproc:
            i = todo.pop()
            out = "%s.%d" % (outfile, i)
            pid = os.fork()
            if pid == 0:
                try:
                    null = os.open("/dev/null", os.O_RDWR)
                    if not os.environ.get("MUT_DEBUG"):
                        os.dup2(null, 1), os.dup2(null, 2)
                    child(check, cases, jobs[i], out, spec.get("trace"))
                finally:
                    os._exit(3)
            running[pid] = (i, out, time.time())
        time.sleep(0.05)
        for pid in list(running):
            i, out, start = running[pid]
            done, status = os.waitpid(pid, os.WNOHANG)
            if not done:
                if time.time() - start > limit:
                    os.kill(pid, 9)
                    os.waitpid(pid, 0)
                    results[i] = {"status": "timeout", "n": -1}
                    del running[pid]
                continue
            try:
                with open(out) as fh:
                    results[i] = json.load(fh)
                os.remove(out)
            except Exception as exc:  # noqa
                results[i] = {"status": "killed", "n": -1, "msg": "died %s %r" % (status, exc)}
            del running[pid]
    with open(outfile, "w") as fh:
        json.dump(results, fh)


main()
