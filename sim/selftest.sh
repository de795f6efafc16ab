#!/bin/bash
# One seed is one execution: the event logs of all runs are the same bytes whatever the number of workers and the hash seed.
cd "$(dirname "$0")/.." || exit 2
tmp=$(mktemp -d)
rc=0
for id in ${@:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15}; do
    n=${RUNS:-40}; [ $id = C02 ] && n=8
    cp -a evidence/$id.json $tmp/ev.json 2>/dev/null
    ./check $id --seed 5 --runs $n --workers 8 --log $tmp/a >/dev/null
    SIM_HASHSEED=7 ./check $id --seed 5 --runs $n --workers 3 --log $tmp/b >/dev/null
    [ -f $tmp/ev.json ] && mv $tmp/ev.json evidence/$id.json
    if [ -s $tmp/a ] && cmp -s $tmp/a $tmp/b; then echo "$id deterministic ($(wc -l <$tmp/a) log lines)"; else echo "$id DIFFERS"; rc=1; cp $tmp/a /tmp/$id.a; cp $tmp/b /tmp/$id.b; fi
done
find $tmp -type f -delete; rmdir $tmp
exit $rc
