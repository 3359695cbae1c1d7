#!/bin/bash
# dev/runseeds.sh [id...]: which checks catch which planted bug (scratch copies only)
cd /verif
ids="${@:-$(ls seeded)}"
run() {
  id=$1; d=/tmp/runseeds/$id; mkdir -p $d
  (cd /repo && git ls-files -z | xargs -0 cp --parents -t $d)
  (cd $d && git init -q . && git apply /verif/seeded/$id/patch.diff)
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  NN_REPO=$d NN_BUILD=/tmp/runseeds/build NN_EVID=/tmp/runseeds/ev-$id python3 check.py $p > /tmp/runseeds/$id.log 2>&1
  echo "$id $p rc=$? $(grep 'violated rule' /tmp/runseeds/$id.log | sort | uniq -c | head -3 | tr '\n' ' ')"
  rm -r /tmp/runseeds/$id
}
export -f run
mkdir -p /tmp/runseeds/build
printf '%s\n' $ids | xargs -P 7 -I{} bash -c 'run {}'
