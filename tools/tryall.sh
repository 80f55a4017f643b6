#!/bin/bash
# tryall.sh BUG...: the quick check of each planted bug's own property against the bug.
for b in "$@"; do
  p=$(python3 -c "import json,sys;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])")
  echo "## $b"; "$(dirname "$0")"/try.sh /verif/seeded/$b/patch.diff $p
done
