#!/bin/bash
# mkseed.sh ID PROPERTY NEEDS BREAKS : records /repo's uncommitted change and /tmp/main.rs as /verif/seeded/ID, undoes the change
set -e
d=/verif/seeded/$1; mkdir -p $d
git -C ${SRC:-/tmp/rw} diff > $d/patch.diff
[ -s $d/patch.diff ]
cp /verif/tools/demo_template.sh $d/demo.sh; cp ${5:-/tmp/main.rs} $d/main.rs
python3 - "$@" <<'P'
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open(f"/verif/seeded/{sys.argv[1]}/meta.json","w"),indent=1)
P
git -C ${SRC:-/tmp/rw} checkout -q -- .
