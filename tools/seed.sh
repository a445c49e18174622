#!/bin/bash
# seed.sh new            fresh scratch copy of /repo in /tmp/seedwt, to be edited
# seed.sh keep ID        diff of the scratch copy -> seeded/ID/patch.diff, confirm (demo.sh and meta.json are there already)
# seed.sh catch ID [C..] apply to /repo, run the checks (default: its property), undo
V=$(cd "$(dirname "$0")/.." && pwd)
case $1 in
new) rm -rf /tmp/seedwt; cp -a /repo /tmp/seedwt; git -C /tmp/seedwt checkout -q -- . ;;
keep) D=$V/seeded/$2; mkdir -p "$D"
  git -C /tmp/seedwt diff > "$D/patch.diff"; [ -s "$D/patch.diff" ] || { echo "empty patch"; exit 1; }
  git -C /repo apply --check "$D/patch.diff" || exit 1
  cd /tmp/seedwt && export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1
  PYTHONPATH=/tmp/seedwt /opt/venv/bin/python -c 'import paramz; assert paramz.__file__.startswith("/tmp/seedwt"), paramz.__file__' || exit 1
  PYTHONPATH=/tmp/seedwt /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --tb=short -W ignore -o python_files='*_tests.py *_test.py test_*.py' -o junit_family=xunit2 --junitxml=/tmp/seed.xml paramz/tests 2>&1 | tail -4
  /usr/bin/python3 /opt/vp/results.py /tmp/seed.json junit:/tmp/seed.xml >/dev/null
  python3 - <<'P' || { echo "SEED FAILS STABLE TESTS"; exit 1; }
import json, sys
m = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - set(json.load(open('/tmp/seed.json'))['passed'])
print("missing stable:", m); sys.exit(1 if m else 0)
P
  (cd /tmp/seedwt; PYTHONPATH=/tmp/seedwt bash "$D/demo.sh" >/tmp/demo.out 2>&1); r=$?; tail -2 /tmp/demo.out; [ $r != 0 ] || { echo "DEMO PASSES WITH PATCH"; exit 1; }
  (cd /repo; bash "$D/demo.sh" >/tmp/demo.out 2>&1) || { tail -3 /tmp/demo.out; echo "DEMO FAILS WITHOUT PATCH"; exit 1; }
  echo "kept $2" ;;
catch) D=$V/seeded/$2; shift 2; C=${*:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
  git -C /repo apply "$D/patch.diff" || exit 1
  for c in $C; do (cd "$V"; ./check $c > /tmp/catch.out 2>&1; r=$?; echo "== $(basename $D) $c exit $r: $(grep -c VIOLATION /tmp/catch.out) violations"; grep -v VIOLATION /tmp/catch.out | head -2 | cut -c1-300); done
  git -C /repo checkout -q -- . ;;
esac
