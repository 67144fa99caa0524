#!/bin/bash
# tools/seedtest.sh ID [notests]: confirm a planted bug in a scratch copy of /repo: demo passes before, fails after,
# and the existing tests pass with the patch.
id=$1; s=/verif/seeded/$id; w=$(mktemp -d /tmp/seed-XXXX)
cp -a "${MC_SRC:-/repo}" "$w/repo"; cd "$w/repo" || exit 1
git checkout -q -- . ; find . -name __pycache__ -prune -exec rm -rf {} +
cp -r "$s" "$w/s"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 NUMBA_CACHE_DIR=$w/numba NUMBA_NUM_THREADS=2 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 DASK_NUM_WORKERS=1
timeout 300 bash "$w/s/demo.sh" > "$w/demo.log" 2>&1; a=$?
[ $a = 0 ] || tail -5 "$w/demo.log"
git apply "$s/patch.diff" || { echo "$id PATCH DOES NOT APPLY"; rm -rf "$w"; exit 1; }
timeout 300 bash "$w/s/demo.sh" > "$w/demo.log" 2>&1; b=$?
tail -2 "$w/demo.log"
t=skipped
if [ "$2" != notests ]; then
  PYTHONPATH=/opt/vp timeout 1200 /opt/venv/bin/python -m pytest thewalrus -q -p no:cacheprovider -p walrus_plugin --randomly-seed=137 -n ${JOBS:-8} --timeout=300 --disable-warnings > "$w/t.log" 2>&1
  t=$(tail -1 "$w/t.log"); grep -a "^FAILED" "$w/t.log" | head -5
fi
echo "SEED $id: demo clean=$a patched=$b tests: $t"
rm -rf "$w"
