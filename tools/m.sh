#!/bin/bash
# m.sh PROP FILE old new : short result of a mutation
echo "== $3 -> $4"; /verif/tools/mut.sh "$1" "$2" "$3" "$4" 2>&1 | grep -E "VIOLATION|$1:|not found|refuted" | tail -5 | cut -c1-200
