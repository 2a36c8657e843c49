#!/bin/bash
# catch.sh PROP_CHECK SEED : runs a check against a planted bug in place, undoing it afterwards
git -C /repo apply /verif/seeded/$2/patch.diff || exit 9
cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $1 > /tmp/w/catch_$1_$2.log 2>&1; rc=$?
git -C /repo checkout -q -- .
echo "$2 $1 rc=$rc $(grep -m1 VIOLATION /tmp/w/catch_$1_$2.log)"
