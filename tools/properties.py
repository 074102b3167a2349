#!/usr/bin/env python3
"""The list of properties; writes properties.jsonl and MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
DESIGN = {}


def prop(id, title, statement, over, text, why, files, mechanism, observe=(), design="", note=""):
    DESIGN[id] = design
    P.append(({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files, "state": [],
                    "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                    "observe_at": list(observe), "hook_needed": None}}, note))


def load():
    import glob
    import runpy

    for path in sorted(glob.glob(os.path.join(HERE, "tools", "props_*.py"))):
        runpy.run_path(path, init_globals={"prop": prop})
    P.sort(key=lambda p: p[0]["id"])


DEFAULT_NOTE = (
    "Generated-input search against an independent oracle: no failure among the cases of "
    "the run (counts and samples in the evidence file); not a proof. Trusts the oracle in "
    "checks/{id}.py and, where the code needs iris, the stand-in in shim/.")


def write_design():
    import re

    with open(os.path.join(HERE, "tools", "DESIGN.head.md")) as fh:
        text = fh.read()
    out = [text.rstrip() + "\n\n## Properties: how each is decided\n"]
    for p, _ in P:
        i = p["id"]
        src = open(os.path.join(HERE, "checks", i + ".py")).read()
        q = re.search(r"^QUICK = (\d+)", src, re.M).group(1)
        t = re.search(r"^THOROUGH = (\d+)", src, re.M).group(1)
        subs = re.findall(r'"([\w-]+)": Sub\(', src)
        rule = eval(re.search(r"^RULE = (\(.*?\)|\"[^\n]*\")$", src, re.M | re.S).group(1))
        out.append("### %s %s\n\n%s\n\n- Sub-checks: %s. Quick: %s generated cases; thorough: %s.\n"
                   "- Cases: %s.\n" % (
                       i, p["title"], (DESIGN[i] or "").strip(), ", ".join(subs), q, t,
                       rule.replace("cases: ", "", 1)))
    out.append("## Planted bugs (seeded/) and what catches them\n\n"
               "| change | property | needs | caught by quick check |\n|---|---|---|---|\n")
    try:
        with open(os.path.join(HERE, "tools", "seeded_results.json")) as fh:
            results = json.load(fh)
    except FileNotFoundError:
        results = {}
    for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
        with open(os.path.join(HERE, "seeded", d, "meta.json")) as fh:
            m = json.load(fh)
        out.append("| %s | %s | %s | %s |\n" % (d, m["property"], m["needs"],
                                              results.get(d, "not run")))
    with open(os.path.join(HERE, "DESIGN.md"), "w") as fh:
        fh.write("\n".join(o if not o.startswith("|") else o for o in out[:-1]).replace(
            "|\n\n|", "|\n|") + "\n" + out[-1] if False else
            "".join(o if o.startswith("|") else "\n" + o for o in out).lstrip("\n"))


def main():
    load()
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p, _ in P:
            assert len(p["title"]) <= 80, p["title"]
            assert all(os.path.exists(os.path.join("/repo", f)) for f in p["anchors"]["files"]), p
            fh.write(json.dumps(p) + "\n")
    checks = []
    for p, note in P:
        i = p["id"]
        if not os.path.exists(os.path.join(HERE, "checks", i + ".py")):
            raise SystemExit("no check for " + i)
        checks.append({
            "property": i,
            "quick_cmd": "./check %s --tier quick" % i,
            "thorough_cmd": "./check %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "property-based testing: Hypothesis generators and shrinking, "
                         "real code run against an independent oracle",
            "level": "exploration",
            "level_note": (note or DEFAULT_NOTE).format(id=i),
        })
    write_design()
    manifest = {"version": 1, "setup_cmd": "./check --selftest", "checks": checks,
                "not_applicable": [],
                "notes": "See DESIGN.md. No hooks are needed in /repo."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(manifest, fh, indent=1)
        fh.write("\n")


if __name__ == "__main__":
    main()
