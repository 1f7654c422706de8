#!/bin/sh
# statsum.sh BINARY [args]: seconds per job group
MC_STAT=1 "$@" --out /tmp/statsum.json 2>&1 | grep -a "^stat" | sed 's/[0-9]* *$//' | awk '{t+=$2; if($2>1) print} END{print t}' | sort -rnk2 | head -30
