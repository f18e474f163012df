#!/bin/bash
# try.sh PROP COUNT [SEED] [FIRST] : short run of a property over all builds and some process counts
. "$(dirname "$0")/env.sh"
R=$(cd "$(dirname "$0")/.." && pwd); mkdir -p "${VH_BUILD:-$R/build}"; B=$(cd "${VH_BUILD:-$R/build}" && pwd)
[ -n "$NOBUILD" ] || python3 "$R/check.py" --build 2>&1 | grep -E "error|FAILED|warning: unused" | head -20
one () { b=$1 P=$2 prop=$3 n=$4 seed=$5 first=$6
T=$(mktemp -d /tmp/vh.XXXXXX)
case $b in *san) n=$((n/4+1));; esac
s=$(date +%s.%N)
timeout ${TMO:-100} mpiexec -n $P $B/$b $prop $seed $first $n ${TIER:-0} $T/out $T > $T/log 2>&1
rc=$?
e=$(date +%s.%N)
o=$(printf "%s P=%s rc=%s %.1fs " $b $P $rc $(echo "$e - $s" | bc))
if [ -f $T/out.stats ]; then [ -n "$W" ] && o="$o $(sed -e 's/"distinct".*//' -e 's/.*"evals"/"evals"/' $T/out.stats | tr '\n' ' ' | cut -c1-$W)"; [ $rc != 0 ] && o="$o $(sed -e 's/"counters".*//' -e 's/.*"evals"/"evals"/' $T/out.stats)"; else o="$o NO STATS last: $(tail -1 $T/out.progress)
$(grep -v "^--\|^$\|^VHFAIL" $T/log | grep "^\[p4est\|^\[libsc\|Abort\|runtime error\|ERROR: Addr\|Assert\|    #[0-6] \|signal" | head -${L:-10} | cut -c1-240)"; fi
echo "$o
$(cat $T/out.viol.* 2>/dev/null | sort -u -t'"' -k12,12 | sort -t: -k2 -n | head -${V:-2} | cut -c1-600)" | grep -v '^$'
rm -rf "$T"
}
for b in ${BINS:-vh2-rel vh3-rel vh2-san vh3-san}; do for P in ${PS:-1 3 5}; do one $b $P $1 $2 ${3:-1} ${4:-0} & done; wait; done
