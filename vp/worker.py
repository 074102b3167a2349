"""Worker: runs the real IMPROVER code (PyPy) on one generated case at a time.

Started by driver.py as  worker.py <check file>.  Reads one JSON request per line on
stdin, {"sub": name, "case": {...}}, and answers with one JSON line on a private
descriptor (stdout proper is sent to stderr, so that code under test may print).
"""
import importlib.util
import io
import json
import os
import re
import signal
import sys
import traceback
import warnings

CPU_LIMIT = float(os.environ.get("VERIF_CASE_CPU", "90"))


PLAIN = ("NoneType", "str", "bytes", "int", "float", "bool", "list", "tuple", "dict", "set", "function",
         "method", "generator", "float32", "float64", "int32", "int64", "bool_", "str_")


class CaseTimeout(BaseException):
    pass


def _on_alarm(signum, frame):
    raise CaseTimeout()


def load_check(path):
    name = "check_" + os.path.basename(path)[:-3]
    spec = importlib.util.spec_from_file_location(name, path)
    module = importlib.util.module_from_spec(spec)
    sys.modules[name] = module
    spec.loader.exec_module(module)
    return module


def innermost(exc):
    tb = exc.__traceback__
    last = None
    while tb is not None:
        last = tb.tb_frame.f_code.co_filename
        tb = tb.tb_next
    return last or ""


def classify(exc, shim_dir):
    """An exception that the stand-in, not IMPROVER, is responsible for."""
    from iris._unsupported import ShimUnsupported

    seen = set()
    e = exc
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        if isinstance(e, ShimUnsupported):
            return True
        e = e.__cause__ or e.__context__
    where = innermost(exc)
    if where.startswith(shim_dir):
        if isinstance(exc, NotImplementedError):
            return True
        if isinstance(exc, AttributeError):
            # something iris has and the stand-in lacks; an attribute of None or of a number is
            # the caller's mistake
            kind = re.match(r"'(\w+)' object has no attribute", str(exc))
            return not (kind and kind.group(1) in PLAIN)
    if isinstance(exc, TypeError) and "unexpected keyword argument" in str(exc):
        # a call into the stand-in with an argument it does not know
        return True
    return False


def handle(module, request, shim_dir):
    from vp import oracle

    run = module.SUBS[request["sub"]].run
    oracle.LABELS.clear()
    try:
        signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                nontrivial = run(request["case"])
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        return {"status": "ok", "nontrivial": bool(nontrivial),
                "labels": sorted(oracle.LABELS)}
    except oracle.Reject as exc:
        return {"status": "reject", "msg": str(exc), "labels": sorted(oracle.LABELS)}
    except oracle.Known as exc:
        return {"status": "known", "msg": str(exc), "labels": sorted(oracle.LABELS)}
    except oracle.Violation as exc:
        return {"status": "fail", "msg": str(exc), "labels": sorted(oracle.LABELS)}
    except CaseTimeout:
        return {"status": "fail", "labels": [],
                "msg": "no result within %s s of CPU time" % CPU_LIMIT}
    except BaseException as exc:  # noqa: B902
        if isinstance(exc, (KeyboardInterrupt, SystemExit)) and not isinstance(
            exc, SystemExit
        ):
            raise
        text = traceback.format_exc()
        if classify(exc, shim_dir):
            return {"status": "unsupported", "msg": text[-3000:],
                    "labels": sorted(oracle.LABELS)}
        return {"status": "fail",
                "msg": "unexpected %s: %s\n%s" % (type(exc).__name__, exc, text[-3000:]),
                "labels": sorted(oracle.LABELS)}


def main():
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    sys.stdout = io.TextIOWrapper(os.fdopen(1, "wb", 0), write_through=True)
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    shim_dir = os.path.join(here, "shim") + "/"
    sys.path.insert(0, here)
    warnings.simplefilter("ignore")
    import numpy as np

    np.seterr(all="ignore")
    signal.signal(signal.SIGVTALRM, _on_alarm)
    module = load_check(sys.argv[1])
    if hasattr(module, "worker_setup"):
        module.worker_setup()
    out.write("READY\n")
    out.flush()
    for line in sys.stdin:
        answer = handle(module, json.loads(line), shim_dir)
        out.write(json.dumps(answer) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
