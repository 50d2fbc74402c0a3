#!/bin/bash
# Event-log digests of many runs, twice, with different worker counts and hash seeds.
cd "$(dirname "$0")/.."; PY=/opt/venv/bin/python; N=${1:-120}; out=$(mktemp -d)
bad=0
for c in $(seq -f C%02g 1 28) C30; do for s in 1 7; do
  VERIF_SEED=$s $PY -m dst digests $c --runs $N --workers 8 > $out/a
  VERIF_SEED=$s $PY -m dst digests $c --runs $N --workers 3 > $out/b
  VERIF_SEED=$s DST_KEEP_HASHSEED=1 PYTHONHASHSEED=4711 $PY -m dst digests $c --runs $N --workers 5 > $out/c
  if cmp -s $out/a $out/b && cmp -s $out/a $out/c; then echo "$c seed $s: $(wc -l < $out/a) runs identical three times"; else echo "$c seed $s: DIFFERENT"; bad=1; diff $out/a $out/b | head -4; diff $out/a $out/c | head -4; fi
done; done
rm -f $out/a $out/b $out/c; rmdir $out; exit $bad
