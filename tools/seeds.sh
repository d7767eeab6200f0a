#!/bin/bash
# runs a check with several seeds: tools/seeds.sh ID n [scale]
python3 /verif/run.py $1 --build-only || exit 1
for s in $(seq 1 ${2:-4}); do timeout 900 python3 /verif/run.py $1 --seed $s --scale ${3:-100} 2>&1 | cut -c1-900 | tail -12; done
