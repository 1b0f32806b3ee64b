#!/bin/bash
# sweep.sh ID SEED...: runs the quick tier for several seeds, prints failures only
id=$1; shift
for s in "$@"; do ./run.sh $id --seed $s --tier ${TIER:-quick} > /tmp/sweep.$id.$s 2>&1 || { echo "== $id seed $s"; cut -c1-400 /tmp/sweep.$id.$s | head -${HEADN:-8}; }; tail -1 /tmp/sweep.$id.$s; rm -f /tmp/sweep.$id.$s; done
