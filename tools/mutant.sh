#!/bin/bash
# usage: tools/mutant.sh SEEDED_ID [--notests] [PROPERTY...]
# Confirms a planted bug in a scratch copy of /repo: patch applies, the stable tests pass, the
# demo separates the trees, and the check(s) report it.
V=$(cd "$(dirname "$0")/.." && pwd)
id=$1; shift
tests=1; [ "$1" = --notests ] && { tests=0; shift; }
D=$V/seeded/$id
prop=${*:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
M=$(mktemp -d /tmp/mut.XXXXXX)
trap 'python3 -c "import shutil,sys; m=sys.argv[1]; assert m.startswith(\"/tmp/mut.\"); shutil.rmtree(m)" "$M"' EXIT
mkdir "$M/repo" "$M/demo"
cp -a /repo/improver /repo/improver_tests /repo/setup.* /repo/bin "$M/repo/" 2>/dev/null
for f in "$D"/*; do case $f in *.diff|*/meta.json) ;; *) cp -r "$f" "$M/demo/";; esac; done
( cd /repo && PYTHONDONTWRITEBYTECODE=1 timeout 300 bash "$M/demo/demo.sh" >"$M/clean.log" 2>&1 ); a=$?
( cd "$M/repo" && git apply "$D/patch.diff" ) || { echo "$id: patch does not apply"; exit 1; }
( cd "$M/repo" && PYTHONDONTWRITEBYTECODE=1 timeout 300 bash "$M/demo/demo.sh" >"$M/bug.log" 2>&1 ); b=$?
echo "$id: demo clean=$a mutated=$b: $(tail -1 "$M/bug.log")"
[ $a != 0 ] && tail -5 "$M/clean.log"
if [ $tests = 1 ]; then
  T=improver_tests
  ( cd "$M/repo" && PYTHONPATH=$M/repo PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 \
    /opt/venv/bin/python -m pytest -q -p no:cacheprovider --import-mode=importlib --continue-on-collection-errors \
    $T/test_source_code.py $T/test_api.py $T/ensemble_copula_coupling/test__scipy_continuous_distns.py \
    $T/nbhood/test_init.py $T/spotdata/test_utilities.py $T/synthetic_data/test_utilities.py \
    $T/utilities/test_cli_utilities.py $T/utilities/test_compare.py $T/utilities/test_neighbourhood_tools.py \
    $T/utilities/test_round.py 2>&1 | tail -1 )
fi
for p in $prop; do
  VERIF_REPO=$M/repo VERIF_SEED=${VERIF_SEED:-1} "$V/check" "$p" --tier quick > "$M/check.log"
  grep -E "VIOLATION|exit=|failed:|ERROR" "$M/check.log" | cut -c1-300
  python3 - "$V" "$id" "$M/check.log" <<'PY'
import json, re, sys
v, i, log = sys.argv[1:]
p = v + "/tools/seeded_results.json"
try: r = json.load(open(p))
except FileNotFoundError: r = {}
m = re.search(r"sub-check (\w+) failed", open(log).read())
pr = re.search(r"VIOLATION property=(\w+)", open(log).read())
own = json.load(open(v + "/seeded/" + i + "/meta.json"))["property"]
if pr and (pr.group(1) == own or not r.get(i, "").startswith(own)): r[i] = pr.group(1) + "/" + m.group(1)
elif i not in r or r[i].split("/")[0] == own: r[i] = "**missed**"
json.dump(r, open(p, "w"), indent=1, sort_keys=True)
PY
done
