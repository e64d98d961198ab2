#!/bin/sh
# per-harness time of a check: tools/prof.sh PID [args]
cd /verif
PYTHONHASHSEED=0 timeout ${T:-900} python3-vt -m engine.check "$@" -v 2>&1 | tee /tmp/prof.out | grep paths | sed -E 's/ +/ /g' | awk '{k=$1; for(i=2;i<=NF;i++){if($i=="paths"){p=$(i+1);t=$(i+4);sub("s","",t);break} k=k" "$i} P[k]+=p;T[k]+=t} END{for(k in P)print T[k],P[k],k}' | sort -rn | head -${N:-25}
grep -v " paths .* feas" /tmp/prof.out | cut -c1-1500
