#!/bin/bash
# runs every sub-property of a check separately: tools/subs.sh ID [scale] [seed]
id=$1; python3 /verif/run.py $id --build-only || exit 1
for p in $(/verif/build/$id/asan/$id list | cut -d' ' -f1); do echo "== $p"; timeout 600 python3 /verif/run.py $id --only $p --scale ${2:-100} --seed ${3:-1} 2>&1 | cut -c1-700 | head -${4:-9}; done
