#!/bin/bash
# deductive layer of one property on a scratch copy of /repo with a patch:  ded.sh PATCH ID...
p=$(realpath "$1"); shift
d=$(mktemp -d /tmp/ded.XXXX); cp -a /repo/. $d/; git -C $d checkout -q -- . ; git -C $d apply "$p" || exit 3
for i in "$@"; do echo "== $(basename $(dirname $p)) $i"; VERIF_REPO=$d PYTHONHASHSEED=0 /opt/venv/bin/python /verif/tools/rv.py $i | grep -E "^(refuted|undecided|[0-9]|   cases)" | cut -c1-700; done
find $d -delete
