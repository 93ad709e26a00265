#!/bin/bash
# for each planted bug (or those named): does the property's check catch it, in a scratch copy of /repo?
cd "$(dirname "$0")/.."
ids=${*:-$(ls seeded)}
one() {
  id=$1; p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  d=$(mktemp -d /tmp/rs.XXXXXX); cp -a /repo $d/repo; git -C $d/repo apply $PWD/seeded/$id/patch.diff || echo APPLYFAIL $id
  PYVC_REPO=$d/repo PYVC_OUT=$d timeout 900 /opt/venv/bin/python -m pyvc.run $p $MODE >$d/out 2>&1; rc=$?
  echo "$id $p rc=$rc $(grep -m1 VIOLATION $d/out | cut -c1-150)"
  rm -rf $d
}
export -f one
printf '%s\n' $ids | xargs -P ${JOBS:-3} -I{} bash -c 'one {}'
