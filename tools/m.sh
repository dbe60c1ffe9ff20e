#!/bin/bash
# m.sh PROPERTY FILE SED...: several mutations in parallel (development aid)
p=$1; f=$2; shift 2
for s in "$@"; do bash /verif/tools/mutsed.sh $p $f "$s" 2>&1 | tail -1 | cut -c1-260 & done; wait
