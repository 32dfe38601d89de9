#!/bin/bash
# tools/tryseed.sh ID [simtest args…]: runs the check of a planted bug on a scratch copy, leaving /repo alone.
# With further arguments runs "simtest run PROP args" instead.
ID=$1; shift; D=/verif/seeded/$ID
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
T=/tmp/try; mkdir -p $T/verif
rsync -a --delete --exclude .git --exclude evidence --exclude seeded --exclude .build /verif/ $T/verif/ 2>/dev/null || { echo "no rsync"; exit 2; }
[ -d $T/repo ] || git clone -q /repo $T/repo
git -C $T/repo fetch -q; git -C $T/repo checkout -q -f $(git -C /repo rev-parse HEAD); 
git -C $T/repo apply $D/patch.diff || exit 2
cd $T/verif; export VERIF_REPO=$T/repo VERIF_DIR=$T/verif
if [ $# = 0 ]; then
  T0=$(date +%s); ./check.sh $P quick > /tmp/try.$ID.out 2>&1; C=$?
  echo "$ID check=$C $(( $(date +%s)-T0 ))s $(grep -m1 '^VIOLATION' /tmp/try.$ID.out) $(grep -m1 -i 'class' /tmp/try.$ID.out|cut -c1-200)"
else
  ./build.sh 2>&1 | tail -3; ./.build/simtest run $P "$@" 2>&1 | tail -8
fi
