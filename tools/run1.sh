#!/bin/bash
# run1.sh BIN P PROP SEED FIRST COUNT : manual run of one batch
. "$(dirname "$0")/env.sh"
B=$(cd "$(dirname "$0")/../build" && pwd)
T=$(mktemp -d /tmp/vh.XXXXXX)
mpiexec -n $2 $B/$1 $3 $4 $5 $6 ${TIER:-0} $T/out $T
rc=$?
[ -f $T/out.stats ] && cut -c1-1500 $T/out.stats
[ -f $T/out.progress ] && tail -1 $T/out.progress
rm -rf "$T"
exit $rc
