#!/bin/bash
# developer aid: mut.sh SPEC FILE 'sed expr' : run the prover on a mutated scratch copy
cd /tmp/mut && git checkout -q . && git -C /tmp/mut pull -q /repo 2>/dev/null; cp /repo/$2 /tmp/mut/$2 && sed -i "$3" /tmp/mut/$2 && git -C /repo diff --no-index --stat /repo/$2 /tmp/mut/$2 | tail -1
cd /verif && VERIF_REPO=/tmp/mut python3-vt -m vcg.run $1 ${@:4} 2>&1 | grep -v "^proved"
cp /repo/$2 /tmp/mut/$2
