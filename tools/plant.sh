#!/bin/bash
# usage: plant.sh <seeded dir> [prop ...]   Confirms one planted bug in a scratch copy: the patch applies,
# the demo passes without and fails with it, (TESTS=1) the stable tests pass with it, and says which checks catch it.
D=$(realpath "$1"); shift
W=$(mktemp -d /tmp/plantXXXXXX)
trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"; cd "$W/repo" || exit 3
git checkout -q -- . || exit 3
cp -a "$D" "$W/demo"; rm -f "$W/demo/patch.diff" "$W/demo/meta.json"
run_demo() { (cd /repo && true; cd "$W/repo" && REPO="$W/repo" PYTHONPATH="$W/repo/src" PYTHONDONTWRITEBYTECODE=1 timeout 300 bash "$W/demo/demo.sh" >"$W/demo.out" 2>&1); }
run_demo; a=$?
git apply "$D/patch.diff" || { echo "PATCH DOES NOT APPLY"; exit 3; }
run_demo; b=$?
echo "demo unchanged=$a patched=$b"; [ $a = 0 ] && [ $b != 0 ] || { tail -5 "$W/demo.out"; echo "DEMO BAD"; }
if [ "$TESTS" = 1 ]; then
  cd "$W/repo" && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$W/repo/src:$W/repo/tests" TZ=UTC /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider -p no:xdist --timeout=120 tests 2>&1 | tail -4
  rm -rf "$W/repo/tests/results"
fi
for p in "$@"; do
  cd /verif && VERIF_REPO="$W/repo" timeout 900 /opt/venv/bin/python checks/run.py $p > "$W/out.txt" 2>&1; rc=$?
  echo "$p rc=$rc $(grep -m1 -o '^violated: .*' "$W/out.txt" | cut -c1-150)"; [ $rc -gt 1 ] && tail -3 "$W/out.txt"
done
exit 0
