#!/bin/bash
# mutsed.sh PROPERTY FILE SEDEXPR: run a check against a scratch copy of /repo/src with one edit (development aid)
# mutsed.sh PROPERTY @PATCH: the same with a patch
d=$(mktemp -d /tmp/mutsed.XXXXXX); mkdir $d/r $d/pypath; cp -r /repo/src $d/r/src
ln -s $d/r/src $d/pypath/wfa_planning_evaluation_framework
if [ "${2:0:1}" = "@" ]; then (cd $d/r && patch -s -p1 < "${2:1}"); else sed -i "$3" $d/r/src/$2; fi
if diff -rq /repo/src $d/r/src -x __pycache__ >/dev/null; then echo "NO CHANGE: $3"; else
. /opt/vp/env.sh; export PYTHONPATH=${PYTHONPATH//\/opt\/pypath/$d/pypath}
cd /verif; VERIF_TIER=quick VERIF_EVIDENCE=$d/ev timeout 900 /opt/venv39/bin/python run.py check $1 --tier ${TIER:-quick} > $d/log 2>&1; echo "rc=$? $1 [$2 $3] $(grep -E '^  ' $d/log | grep -v Traceback | head -1 | cut -c1-150) $(tail -1 $d/log | cut -c1-100)"; fi
rm -rf "$d"
