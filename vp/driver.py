#!/opt/veriftools/pyenv/bin/python
"""Driver: generates cases with Hypothesis (CPython), sends them to PyPy workers that run
the real code, shrinks failures, writes the replay file and the evidence file.

usage: driver.py <PROPERTY> [--tier quick|thorough] [--examples N] [--sub NAME] [--shards N]
       driver.py --replay FILE
"""
import argparse
import hashlib
import json
import multiprocessing as mp
import os
import queue
import re
import select
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
PYPY = "/opt/venv/bin/python"


class WorkerDied(Exception):
    pass


class Worker:
    def __init__(self, check_path):
        env = dict(os.environ)
        env.update(
            PYTHONPATH=os.path.join(HERE, "shim") + ":" + REPO,
            PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1",
            OPENBLAS_NUM_THREADS="1", LANG="C.UTF-8", TZ="UTC", VERIF_HOME=HERE)
        self.history = []
        self.proc = subprocess.Popen(
            [PYPY, os.path.join(HERE, "vp", "worker.py"), check_path],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL
            if not os.environ.get("VERIF_DEBUG") else None, env=env, cwd="/tmp")
        line = self._read(300)
        if line.strip() != b"READY":
            raise WorkerDied("worker did not start: %r" % line)

    def _read(self, timeout):
        fd = self.proc.stdout
        ready, _, _ = select.select([fd], [], [], timeout)
        if not ready:
            self.close()
            raise WorkerDied("worker gave no answer in %s s" % timeout)
        line = fd.readline()
        if not line:
            raise WorkerDied("worker ended (%s)" % self.proc.poll())
        return line

    def ask(self, sub, case):
        self.history.append((sub, case))
        data = json.dumps({"sub": sub, "case": case}) + "\n"
        try:
            self.proc.stdin.write(data.encode())
            self.proc.stdin.flush()
        except BrokenPipeError:
            raise WorkerDied("worker ended (%s)" % self.proc.poll())
        return json.loads(self._read(600))

    def close(self):
        try:
            self.proc.kill()
            self.proc.wait()
        except Exception:
            pass


def load_check(prop):
    from vp.worker import load_check as load

    return load(os.path.join(HERE, "checks", prop + ".py"))


class Failed(AssertionError):
    pass


def fails_after(path, history, sub, case):
    """The message if the case fails on a fresh worker after the history, or None."""
    worker = Worker(path)
    try:
        for one, earlier in history:
            worker.ask(one, earlier)
        ans = worker.ask(sub, case)
        return ans["msg"] if ans["status"] == "fail" else None
    except WorkerDied:
        return None
    finally:
        worker.close()


def failing_history(path, history, seconds):
    """The code under test may keep something from one call to the next: if the last case of
    the history fails after the others though it does not alone, that case and a short list
    of the earlier ones that it needs."""
    (sub, case), history = history[-1], history[:-1]
    msg = fails_after(path, history, sub, case)
    if msg is None:
        return None
    end = time.time() + seconds
    pieces = 2
    while history and time.time() < end:
        size = -(-len(history) // pieces)
        parts = [history[i:i + size] for i in range(0, len(history), size)]
        for i, part in enumerate(parts):
            if time.time() > end:
                break
            rest = [x for j, y in enumerate(parts) if j != i for x in y]
            # the part alone, then everything but the part
            for smaller in ([part, rest] if len(parts) > 2 else [part]):
                if len(smaller) < len(history):
                    m = fails_after(path, smaller, sub, case)
                    if m is not None:
                        history, msg, pieces = smaller, m, max(2, pieces - 1)
                        break
            else:
                continue
            break
        else:
            if size <= 1:
                break
            pieces = min(len(history), pieces * 2)
    return sub, case, msg, history


def _one_argument(func):
    def body(case):
        func(case)

    return body


def shard_main(prop, index, nshards, seed, plan, shrink_s, stop, out):
    """Run the planned number of examples of every sub-check of the property."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    path = os.path.join(HERE, "checks", prop + ".py")
    stats = {}
    failure = None
    problem = None
    worker = None
    try:
        module = load_check(prop)
        worker = Worker(path)
        for sub, count in plan:
            if stop.is_set():
                break
            st = stats.setdefault(sub, {
                "evaluations": 0, "nontrivial": 0, "reject": 0, "unsupported": 0,
                "harness": 0, "known": {}, "labels": {}, "samples": [], "hashes": set(),
                "unsupported_msg": ""})
            state = {"worker": worker, "first_fail": None, "fails": {}, "best": None, "history": []}

            def evaluate(case, sub=sub, st=st, state=state):
                key = json.dumps(case, sort_keys=True)
                if key in state["fails"]:
                    raise Failed(state["fails"][key])
                if state["first_fail"] is not None and (
                    time.time() - state["first_fail"] > shrink_s
                ):
                    return
                if stop.is_set():
                    return
                try:
                    ans = state["worker"].ask(sub, case)
                except WorkerDied as exc:
                    # the code under test ended the process: decide by repeating it
                    state["worker"].close()
                    state["worker"] = Worker(path)
                    try:
                        ans = state["worker"].ask(sub, case)
                    except WorkerDied as again:
                        state["worker"] = Worker(path)
                        ans = {"status": "fail", "labels": [],
                               "msg": "the process died: %s / %s" % (exc, again)}
                st["evaluations"] += 1
                for name in ans.get("labels", ()):
                    st["labels"][name] = st["labels"].get(name, 0) + 1
                status = ans["status"]
                if status == "ok":
                    digest = hashlib.sha1(key.encode()).hexdigest()[:16]
                    if ans["nontrivial"] and digest not in st["hashes"]:
                        st["hashes"].add(digest)
                        if len(st["samples"]) < 2 and len(key) < 3000:
                            st["samples"].append(case)
                elif status == "reject":
                    st["reject"] += 1
                elif status == "known":
                    st["known"][ans["msg"]] = st["known"].get(ans["msg"], 0) + 1
                elif status == "unsupported":
                    st["unsupported"] += 1
                    st["unsupported_msg"] = ans["msg"]
                elif status == "harness":
                    st["harness"] += 1
                    st["unsupported_msg"] = ans["msg"]
                else:
                    if state["first_fail"] is None:
                        state["first_fail"] = time.time()
                        state["history"] = list(state["worker"].history)
                    state["fails"][key] = ans["msg"]
                    if state["best"] is None or len(key) <= len(state["best"][0]):
                        state["best"] = (key, case, ans["msg"])
                    raise Failed(ans["msg"])

            digest = hashlib.sha256(
                ("%s/%s/%s/%s" % (seed, prop, sub, index)).encode()).hexdigest()
            test = given(module.SUBS[sub].gen())(_one_argument(evaluate))
            test = settings(
                max_examples=count, database=None, deadline=None, print_blob=False,
                report_multiple_bugs=False, derandomize=False,
                phases=[Phase.generate, Phase.shrink],
                suppress_health_check=list(HealthCheck))(test)
            test = hypothesis.seed(int(digest[:12], 16))(test)
            try:
                test()
            except BaseException as exc:
                if state["best"] is None:
                    raise
                case, msg = state["best"][1], state["best"][2]
                # the smallest failing case must still fail on a fresh worker
                state["worker"].close()
                state["worker"] = Worker(path)
                try:
                    ans = state["worker"].ask(sub, case)
                    confirmed = ans["status"] == "fail"
                    msg = ans.get("msg", msg)
                except WorkerDied:
                    confirmed = True
                if not confirmed:
                    # not reproducible alone: fall back to any recorded failing case
                    for key, m in state["fails"].items():
                        c = json.loads(key)
                        ans = state["worker"].ask(sub, c)
                        if ans["status"] == "fail":
                            case, msg, confirmed = c, ans["msg"], True
                            break
                history = []
                if not confirmed:
                    # it may need the calls made before it
                    found = failing_history(path, state["history"], 90)
                    if found:
                        confirmed = True
                        sub, case, msg, history = found
                        msg += " (after %d other cases)" % len(history)
                if not confirmed:
                    problem = "failure in %s not reproducible: %s (%s)" % (sub, msg, exc)
                else:
                    failure = {"sub": sub, "case": case, "msg": msg, "history": history}
                    stop.set()
                worker = state["worker"]
                break
            worker = state["worker"]
    except BaseException:
        problem = traceback.format_exc()
    finally:
        if worker is not None:
            worker.close()
        for st in stats.values():
            st["hashes"] = sorted(st["hashes"])
        out.put((index, stats, failure, problem))


def make_plan(module, examples, nshards, only=None):
    subs = {k: v for k, v in module.SUBS.items() if only is None or k in only}
    total = sum(s.weight for s in subs.values())
    plan = []
    for name, sub in subs.items():
        n = max(2, int(round(examples * sub.weight / total / nshards)))
        plan.append((name, n))
    return plan


def run_property(prop, tier, seed, examples=None, only=None, nshards=None, quiet=False):
    module = load_check(prop)
    if examples is None:
        examples = (module.QUICK if tier == "quick" else module.THOROUGH)
        if os.environ.get("VERIF_SCALE"):
            examples = int(examples * float(os.environ["VERIF_SCALE"]))
    nshards = nshards or min(8, os.cpu_count() or 8)
    plan = make_plan(module, examples, nshards, only)
    start = time.time()
    ctx = mp.get_context("fork")
    stop = ctx.Event()
    out = ctx.Queue()
    shrink_s = 25 if tier == "quick" else 120
    procs = []
    for i in range(nshards):
        # rotate the plan, so that a failure in any sub-check is met early by some shard
        k = (i * len(plan)) // nshards
        p = ctx.Process(target=shard_main, args=(
            prop, i, nshards, seed, plan[k:] + plan[:k], shrink_s, stop, out))
        p.start()
        procs.append(p)
    results = []
    while len(results) < nshards:
        try:
            results.append(out.get(timeout=5))
        except queue.Empty:
            if all(not p.is_alive() for p in procs):
                try:
                    while len(results) < nshards:
                        results.append(out.get(timeout=2))
                except queue.Empty:
                    break
    for p in procs:
        p.join(10)
        if p.is_alive():
            p.kill()
    wall = time.time() - start
    results.sort()
    merged = {}
    failures, problems = [], []
    if len(results) < nshards:
        problems.append("%d shards ended without a result" % (nshards - len(results)))
    for index, stats, failure, problem in results:
        for sub, st in stats.items():
            m = merged.setdefault(sub, {
                "evaluations": 0, "reject": 0, "unsupported": 0, "harness": 0,
                "known": {}, "labels": {}, "samples": [], "hashes": set(),
                "unsupported_msg": ""})
            for k in ("evaluations", "reject", "unsupported", "harness"):
                m[k] += st[k]
            for k, v in st["labels"].items():
                m["labels"][k] = m["labels"].get(k, 0) + v
            for k, v in st["known"].items():
                m["known"][k] = m["known"].get(k, 0) + v
            m["hashes"].update(st["hashes"])
            m["samples"].extend(st["samples"])
            m["unsupported_msg"] = st["unsupported_msg"] or m["unsupported_msg"]
        if failure:
            failures.append(failure)
        if problem:
            problems.append(problem)
    samples = []
    for sub, m in merged.items():
        for s in sorted(m["samples"], key=lambda c: len(json.dumps(c)))[:2]:
            samples.append({"sub": sub, "case": s})
    known = sorted({k for m in merged.values() for k in m["known"]})
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(m["evaluations"] for m in merged.values()),
            "distinct_nontrivial": sum(len(m["hashes"]) for m in merged.values()),
            "rule": module.RULE,
            "samples": samples,
            "per_subcheck": {
                sub: {"evaluations": m["evaluations"],
                      "distinct_nontrivial": len(m["hashes"]),
                      "rejected_out_of_scope": m["reject"],
                      "undecided_standin_unsupported": m["unsupported"],
                      "undecided_oracle_error": m["harness"],
                      "known_findings_hit": m["known"],
                      "labels": dict(sorted(m["labels"].items()))}
                for sub, m in sorted(merged.items())},
        },
        "assumptions": [
            "iris and cartopy are replaced by the stand-in in /verif/shim (not installable "
            "here); its fidelity is measured with IMPROVER's own unit tests (DESIGN.md)",
        ] + list(getattr(module, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": len(failures),
    }
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    if only is None:
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fh:
            json.dump(evidence, fh, indent=1, sort_keys=True, allow_nan=True)
    code = 0
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    if not quiet:
        for sub, m in sorted(merged.items()):
            print("%s/%s: %d cases, %d distinct non-trivial, %d rejected, %d unsupported, "
                  "%d harness errors" % (prop, sub, m["evaluations"], len(m["hashes"]),
                                         m["reject"], m["unsupported"], m["harness"]))
            if m["unsupported_msg"]:
                print("   undecided, e.g.: " + m["unsupported_msg"].strip()[-700:])
            if os.environ.get("VERIF_LABELS"):
                print("   ", dict(sorted(m["labels"].items())))
    if failures:
        failures.sort(key=lambda f: len(json.dumps([f["case"], f["history"]])))
        f = failures[0]
        blob = json.dumps({"property": prop, "sub": f["sub"], "case": f["case"],
                           "history": f["history"], "message": f["msg"]}, indent=1, allow_nan=True)
        name = "%s-%s-%s.json" % (prop, f["sub"], hashlib.sha1(
            json.dumps(f["case"], sort_keys=True).encode()).hexdigest()[:10])
        replay = os.path.join(HERE, "evidence", "replay", name)
        with open(replay, "w") as fh:
            fh.write(blob)
        print("sub-check %s failed: %s" % (f["sub"], f["msg"]))
        print("case: %s" % json.dumps(f["case"])[:3000])
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        code = 1
    elif problems:
        print("CHECK ERROR: " + "\n".join(sorted(set(problems))[:3]))
        code = 2
    print("%s %s seed=%s wall=%.1fs exit=%d" % (prop, tier, seed, wall, code))
    return code


def replay(path):
    with open(path) as fh:
        item = json.load(fh)
    worker = Worker(os.path.join(HERE, "checks", item["property"] + ".py"))
    for sub, case in item.get("history", ()):
        worker.ask(sub, case)
    ans = worker.ask(item["sub"], item["case"])
    worker.close()
    print(json.dumps(ans, indent=1).replace("\\n", "\n"))
    if ans["status"] == "fail":
        print("VIOLATION property=%s replay=%s" % (item["property"], path))
        return 1
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--examples", type=int)
    ap.add_argument("--sub", action="append")
    ap.add_argument("--shards", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--selftest", action="store_true")
    a = ap.parse_args()
    if a.selftest:
        import hypothesis
        w = Worker(os.path.join(HERE, "checks", "C01.py"))
        w.close()
        print("hypothesis %s, worker starts" % hypothesis.__version__)
        return 0
    if a.replay:
        return replay(a.replay)
    if not re.match(r"^[A-Z][0-9]{2,3}$", a.property or ""):
        ap.error("property id expected")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return run_property(a.property, a.tier, seed, a.examples, a.sub, a.shards)


if __name__ == "__main__":
    sys.exit(main())
