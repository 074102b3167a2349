"""C40: the command line: every command computes what its plugin computes with the values of its options."""
import json
import os
import shutil
import tempfile

import numpy as np

from vp import commands as cm
from vp import oracle as o
from vp.registry import Sub

RULE = ("cases: each of about 90 commands with generated inputs given as files, objects or nested commands, any "
        "combination of its options given as text in either style, output returned or saved; non-trivial when "
        "the command computes a result with at least one option given")
QUICK = 4000
THOROUGH = 30000
NAMES = sorted(cm.COMMANDS)


def gen_options(draw, g, name, case):
    out = {}
    for key, spec in cm.COMMANDS[name]["options"].items():
        n = len(spec["alts"])
        if spec["required"]:
            out[key] = draw(g.integers(0, n - 1 if draw(g.integers(0, 19)) else n))
            if out[key] == n:
                out[key] = -1
        elif draw(g.booleans()):
            out[key] = draw(g.integers(0, n - 1))
    if "model-id-attr" in out and name not in ("weighted-blending", "blend-with-vicinity-and-rename") and draw(g.integers(0, 3)):
        case["off"] = max(1, case["off"])
    return cm.tidy(name, out, draw, g, case)


def base(draw, g):
    grid = draw(g.xy_grid(4, 6, kinds=("laea",), desc=False, square=True, bounds=False))
    return {"grid": dict(grid, dy=2000, dx=2000), "times": draw(g.times(period=False)), "off": draw(g.integers(0, 3))}


def gen_commands():
    from vp import gens as g

    @g.composite
    def make(draw):
        case = base(draw, g)
        name = case["name"] = draw(g.sampled(NAMES))
        slots = cm.COMMANDS[name]["inputs"]
        case["values"] = [draw(g.fixed(24, g.integers(0, 20))) for _ in slots]
        case["bits"] = [draw(g.fixed(5, g.sampled([0, 0, 0, 1]))) for _ in slots]
        case["given"] = [int(not s.get("optional") or draw(g.booleans())) for s in slots]
        case["how"] = [draw(g.sampled(["file", "file", "object", "nested"])) for _ in slots]
        case["options"] = gen_options(draw, g, name, case)
        case["style"] = draw(g.integers(0, 1))
        case["first"] = draw(g.booleans())
        case["out"] = draw(g.sampled(["return", "return", "save", "pass"]))
        case["compress"] = draw(g.sampled([None, 0, 5]))
        if not draw(g.integers(0, 24)):
            case["unknown"] = draw(g.sampled(["--no-such-option", "--no-such=1"]))
        return case

    return make()


def option_values(name, chosen, cubes):
    """(command line arguments, keyword arguments of the plugin call)"""
    args, kw, position = [], {}, []
    for key, spec in cm.COMMANDS[name]["options"].items():
        py = key.replace("-", "_")
        i = chosen.get(key)
        if i is None or i < 0:
            kw[py] = spec["default"] if not isinstance(spec["default"], list) else list(spec["default"])
            continue
        text, value = spec["alts"][i]
        if spec["flag"]:
            args.append((key, None))
        elif spec["required"] == "positional":
            position.append(text)
        elif isinstance(text, tuple):
            args.append((key, text[1]))
        else:
            args.append((key, text))
        kw[py] = json.loads(json.dumps(value)) if isinstance(value, (dict, list)) else value
    if name == "temporal-interpolate" and kw["times"]:
        # times are relative to the start of the period in the table
        import datetime

        start = min(x.coord("time").points[0] for x in cubes)
        moments = [datetime.datetime.utcfromtimestamp(int(start) + 60 * int(x)) for x in kw["times"]]
        kw["times"] = moments
        args = [(k, v if k != "times" else ",".join(x.strftime("%Y%m%dT%H%MZ") for x in moments)) for k, v in args]
    return args, kw, position


def as_list(result):
    from iris.cube import Cube

    return [result] if isinstance(result, Cube) else list(result)


def compare(got, want, what):
    got, want = as_list(got), as_list(want)
    o.check(len(got) == len(want), "%s: %d cubes, expected %d" % (what, len(got), len(want)))
    for a, b in zip(got, want):
        o.unchanged(o.snapshot(b), a, what)


def run_commands(case):
    from improver import cli
    from improver.utilities.load import load_cube, load_cubelist
    from improver.utilities.save import save_netcdf

    name = case["name"]
    entry = cm.COMMANDS[name]
    full, name = name, name.split("#")[0]
    if any(v < 0 for v in case["options"].values()):
        missing = True
    else:
        missing = False
    d = tempfile.mkdtemp(prefix="vp-c40-")
    try:
        inputs, words, made = [], [], []
        for i, slot in enumerate(entry["inputs"]):
            cube = cm.build_input(slot, case, case["values"][i], case["bits"][i], made)
            made.append(cube)
            if not case["given"][i]:
                if i + 1 < len(entry["inputs"]) and any(case["given"][i + 1:]):
                    case["given"][i + 1:] = [0] * (len(entry["inputs"]) - i - 1)
                continue
            path = os.path.join(d, "in%d.nc" % i)
            save_netcdf(cube, path)

            def load(path=path, cube=cube):
                return load_cubelist(path) if isinstance(cube, list) else load_cube(path)

            how = case["how"][i]
            if how != "file" and isinstance(cube, list):
                how = "file"
            if how == "object":
                words.append(load())
                inputs.append(load())
            elif how == "file":
                words.append(path)
                inputs.append(load())
            else:
                from improver.standardise import StandardiseMetadata

                words.append(["standardise", path])
                inputs.append(StandardiseMetadata()(load()))
        args, kw, position = option_values(full, case["options"], inputs)
        flat = []
        for j, (key, value) in enumerate(args):
            if isinstance(value, (dict, list)):
                p = os.path.join(d, "o%d.json" % j)
                with open(p, "w") as f:
                    json.dump(value, f)
                value = p
            if value is None:
                flat.append("--" + key)
            elif case["style"]:
                flat.append("--%s=%s" % (key, value))
            else:
                flat += ["--" + key, value]
        if not flat or flat[0].startswith("--"):
            pass
        try:
            expected, error = entry["func"](inputs, **kw), None
            if expected is not None and not isinstance(expected, str):
                expected = list(as_list(expected))
        except Exception as e:  # the command must fail as well
            if type(e).__name__ == "ShimUnsupported":
                raise
            expected, error = None, e
            if os.environ.get("VERIF_DEBUG"):
                import traceback
                o.label("".join(traceback.format_tb(e.__traceback__)[-1:])[-150:])
        for j, value in enumerate(position):
            if isinstance(value, tuple):
                p = os.path.join(d, "p%d.json" % j)
                with open(p, "w") as f:
                    json.dump(value[1], f)
                value = p
            words.append(value)
        if isinstance(expected, str):
            case["out"] = "return"
        words = flat + words if case["first"] else words + flat
        target = os.path.join(d, "out.nc")
        if case["out"] != "return":
            words += ["--output", target]
            if case["out"] == "pass":
                words += ["--pass-through-output"]
            if case["compress"] is not None:
                words += ["--compression-level=%d" % case["compress"]]
        if case.get("unknown"):
            words.append(case["unknown"])
            missing = True
        text = all(isinstance(w, (str, list)) for w in words)
        label = full
        o.label(name)
        try:
            if text:
                # as typed: brackets and strings only
                typed = []
                for w in words:
                    typed += ["["] + w + ["]"] if isinstance(w, list) else [w]
                got = cli.main.cli("improver", name, *typed)
            else:
                got = cli.execute_command(cli.SUBCOMMANDS_DISPATCHER, "improver", name, *words)
        except Exception as e:
            if type(e).__name__ == "ShimUnsupported":
                raise
            if error is None and not missing:
                raise
            o.check(not os.path.exists(target), "%s failed but wrote its output" % label)
            if case.get("unknown"):
                from clize.errors import UserError

                o.check(isinstance(e, UserError), "%s with %s raised %r" % (label, case["unknown"], e))
            if os.environ.get("VERIF_DEBUG"):
                o.label(name + " fails " + type(error).__name__ + str(error)[:60])
            return False
        o.check(not missing, "%s succeeded without a required option or with an unknown one: %s" % (label, words))
        o.check(error is None, "%s %s succeeded, expected %r" % (label, [w for w in words if isinstance(w, str)], error))
        if expected is None:
            o.check(got is None and not os.path.exists(target), "%s returned %r, expected nothing" % (label, got))
            return False
        if isinstance(expected, str):
            o.equal(str(got), str(expected), "text returned by " + label)
            return True
        if case["out"] == "save":
            o.check(got is None, "%s returned %r although saved" % (label, type(got)))
        else:
            got = getattr(got, "original_object", got)
        if case["out"] != "return":
            other = os.path.join(d, "expected.nc")
            from iris.cube import CubeList

            save_netcdf(CubeList(expected) if len(expected) > 1 else expected[0], other)
            compare(load_cubelist(target), load_cubelist(other), label + " output file")
        if case["out"] != "save":
            compare(got, expected, label + " result")
        return bool(args)
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- chains of commands
CHAIN = ["standardise", "clip", "extract", "collapse-realizations", "vicinity", "create-grid-with-halo", "expected-value",
         "threshold", "generate-percentiles", "nbhood"]


def gen_chain():
    from vp import gens as g

    @g.composite
    def make(draw):
        case = base(draw, g)
        case["values"] = draw(g.fixed(24, g.integers(0, 20)))
        case["steps"] = []
        for _ in range(draw(g.integers(2, 4))):
            name = draw(g.sampled(CHAIN))
            sub = {"given": [1, 0, 0], "off": 0, "times": {}}
            case["steps"].append({"name": name, "options": gen_options(draw, g, name, sub), "keep": draw(g.integers(0, 2)) == 0})
        case["mode"] = draw(g.sampled(["run", "run", "run", "dry", "verbose"]))
        case["object"] = draw(g.booleans())
        return case

    return make()


def run_chain(case):
    import contextlib
    import io
    from improver import cli
    from improver.utilities.load import load_cube
    from improver.utilities.save import save_netcdf

    d = tempfile.mkdtemp(prefix="vp-c40-")
    try:
        cube = cm.build_input(cm.F(*cm.T, leads=("r",)), case, case["values"], [0])
        path = os.path.join(d, "in.nc")
        save_netcdf(cube, path)
        value, words, error, kept = load_cube(path), [load_cube(path) if case["object"] else path], None, []
        for k, step in enumerate(case["steps"]):
            name = step["name"]
            args, kw, position = option_values(name, step["options"], [cube])
            new = [name] + (words if k == 0 else [words]) + position
            for j, (key, text) in enumerate(args):
                if isinstance(text, (dict, list)):
                    p = os.path.join(d, "o%d%d.json" % (k, j))
                    with open(p, "w") as f:
                        json.dump(text, f)
                    text = p
                new += ["--" + key] + ([] if text is None else [text])
            target = os.path.join(d, "kept%d.nc" % k)
            if step["keep"]:
                new += ["--output", target, "--pass-through-output"]
            words = new
            if error is None:
                if any(v < 0 for v in step["options"].values()):
                    error = ValueError("missing")
                    continue
                try:
                    value = cm.COMMANDS[name]["func"]([value], **kw)
                    if step["keep"]:
                        kept.append((target, value.copy()))
                except Exception as e:
                    if type(e).__name__ == "ShimUnsupported":
                        raise
                    error = e

        def type_out(w):
            out = []
            for x in w:
                out += ["["] + type_out(x) + ["]"] if isinstance(x, list) else [x]
            return out

        flags = {"dry": ["--dry-run"], "verbose": ["--verbose"], "run": []}[case["mode"]]
        screen = io.StringIO()
        try:
            with contextlib.redirect_stdout(screen):
                if case["object"]:
                    got = cli.main("improver", *type_out(words), dry_run=bool(flags and case["mode"] == "dry"),
                                   verbose=case["mode"] == "verbose")
                else:
                    got = cli.main.cli("improver", *(flags + type_out(words)))
        except Exception as e:
            if type(e).__name__ == "ShimUnsupported":
                raise
            if error is None:
                raise
            # what was kept before the failing step is complete
            for target, want in kept:
                check_file(target, want, d)
            return False
        o.label(case["mode"])
        if case["mode"] == "dry":
            o.check(not [x for x in os.listdir(d) if x.startswith("kept")], "a dry run wrote %s" % os.listdir(d))
            return len(case["steps"]) > 1
        o.check(error is None, "succeeded, expected %r from %s" % (error, case["steps"]))
        got = getattr(got, "original_object", got)
        compare(got, value, "result of the nested commands")
        for target, want in kept:
            check_file(target, want, d)
        if case["mode"] == "verbose":
            text = screen.getvalue()
            for step in case["steps"]:
                o.check(step["name"] in text, "%s is not among the commands printed: %s" % (step["name"], text))
        else:
            o.equal(screen.getvalue(), "", "text printed")
        return len(case["steps"]) > 1
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check_file(target, want, d):
    from improver.utilities.load import load_cubelist
    from improver.utilities.save import save_netcdf

    other = os.path.join(d, "expected.nc")
    save_netcdf(want, other)
    compare(load_cubelist(target), load_cubelist(other), "output kept of a nested command")
    os.remove(other)


# ---------------------------------------------------------------- brackets and conversions
def gen_machinery():
    from vp import gens as g

    @g.composite
    def make(draw):
        words = draw(g.lists(g.sampled(["[", "[", "]", "]", "a", "b", "--x", "[a", ""]), max_size=14))
        if draw(g.integers(0, 3)):                      # usually make the brackets match
            out, depth = [], 0
            for w in words:
                if w == "]" and not depth:
                    continue
                depth += (w == "[") - (w == "]")
                out.append(w)
            words = out + ["]"] * depth
        return {"words": words,
                "items": draw(g.lists(g.sampled(["1", "2.5", "-3", "1e3", "word", "", " 7"]), min_size=1, max_size=4)),
                "date": [draw(g.integers(1971, 2050)), draw(g.integers(1, 12)), draw(g.integers(1, 28)), draw(g.integers(0, 23)), draw(g.integers(0, 59))],
                "json": draw(g.sampled([{"a": [1, 2]}, {}, {"b": {"c": None}}, [1]])),
                "names": draw(g.lists(g.sampled(["air_temperature", "rainfall_rate", "wind_speed"]), min_size=1, max_size=3, unique=True)),
                "want": draw(g.lists(g.sampled(["air_temperature", "rainfall_rate", "wind_speed"]), min_size=1, max_size=3, unique=True)),
                "file": draw(g.booleans())}

    return make()


def run_machinery(case):
    import datetime
    import pathlib
    from improver import cli
    from iris.cube import CubeList
    from improver.utilities.save import save_netcdf
    from vp import cubes as c

    # brackets: a stack of lists written independently
    words = case["words"]
    depth, bad = 0, False
    for w in words:
        depth += (w == "[") - (w == "]")
        bad = bad or depth < 0
    bad = bad or depth != 0
    if bad:
        o.raises(ValueError, cli.unbracket, words)
    else:
        def parse(i):
            out = []
            while i < len(words) and words[i] != "]":
                if words[i] == "[":
                    inner, i = parse(i + 1)
                    out.append(inner)
                else:
                    out.append(words[i])
                i += 1
            return out, i

        o.equal(cli.unbracket(words), parse(0)[0], "nested arguments of %s" % words)
    # lists
    text = ",".join(case["items"])
    o.equal(cli.comma_separated_list(text), text.split(","), "list of %r" % text)
    o.equal(cli.comma_separated_list(["x", 1]), ["x", 1], "a list passed as an object")
    try:
        numbers = [float(x) for x in case["items"]]
    except ValueError:
        o.raises(ValueError, cli.comma_separated_list_of_float, text)
    else:
        o.equal(cli.comma_separated_list_of_float(text), numbers, "numbers of %r" % text)
    # dates and paths
    y, m, day, h, mi = case["date"]
    stamp = "%04d%02d%02dT%02d%02dZ" % (y, m, day, h, mi)
    got = cli.inputdatetime(stamp)
    want = datetime.datetime(y, m, day, h, mi)
    o.check(got.replace(tzinfo=None) == want, "%s became %s" % (stamp, got))
    o.check(cli.inputdatetime(want) is want, "a datetime was converted")
    o.equal(cli.inputpath("a/b c.nc"), pathlib.Path("a/b c.nc"), "path")
    d = tempfile.mkdtemp(prefix="vp-c40-")
    try:
        p = os.path.join(d, "x.json")
        with open(p, "w") as f:
            json.dump(case["json"], f)
        o.equal(cli.inputjson(p), case["json"], "json")
        obj = {"k": 1}
        o.check(cli.inputjson(obj) is obj, "a dictionary was converted")
        o.check(cli.inputjson(None) is None, "None was converted")
        # cubes picked in the order of the constraints
        grid = {"kind": "laea", "ny": 2, "nx": 2, "dy": 2000, "dx": 2000, "y0": 0, "x0": 0, "ydesc": False, "xdesc": False, "bounds": False}
        units = {"air_temperature": "K", "rainfall_rate": "m s-1", "wind_speed": "m s-1"}
        cubes = CubeList(c.new_cube(np.full((2, 2), i, np.float32), n, units[n], c.yx_coords(grid), []) for i, n in enumerate(case["names"]))
        convert = cli.create_constrained_inputcubelist_converter(
            *[w if i % 2 else (lambda cube, w=w: cube.name() == w) for i, w in enumerate(case["want"])])
        source = cubes
        if case["file"]:
            source = os.path.join(d, "x.nc")
            save_netcdf(cubes, source)
        if set(case["want"]) <= set(case["names"]):
            got = convert(source)
            o.equal([x.name() for x in got], case["want"], "constrained cubes")
            for x in got:
                o.check(float(x.data[0, 0]) == case["names"].index(x.name()), "data of %s" % x.name())
        else:
            o.raises(Exception, convert, source)
        # an object and its file are equivalent inputs
        one = cubes[0]
        o.check(cli.inputcube(one) is one and cli.inputcube_nolazy(one) is one, "a cube was converted")
        path = os.path.join(d, "one.nc")
        save_netcdf(one.copy(), path)
        for func in (cli.inputcube, cli.inputcube_nolazy):
            o.close(func(path).data, one.data, "loaded input")
        o.equal([x.name() for x in cli.inputcubelist(path)], [one.name()], "loaded list")
        if case["file"]:
            o.equal(sorted(x.name() for x in cli.inputcubelist(source)), sorted(case["names"]), "loaded list")
        # an object passed under a name
        w = cli.ObjectAsStr(one, "some name")
        o.check(str(w) == "some name" and w.original_object is one and cli.ObjectAsStr(w) is w, "wrapped object")
        o.check(cli.inputcube(w) is one, "wrapped cube")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return not bad and "[" in words


SUBS = {
    "commands": Sub(gen_commands, run_commands, 6),
    "chain": Sub(gen_chain, run_chain, 2),
    "machinery": Sub(gen_machinery, run_machinery, 2),
}
