#!/bin/bash
# tryseed.sh ID [test] : in a scratch copy, confirm demo clean/patched, optionally the test-suite, and the check's answer
id=$1; S=/verif/seeded/$id; W=/tmp/w_$id
rm -rf "$W"; mkdir -p $W; cp -a /repo $W/repo
export PYTHONPATH=$W/repo PYTHONDONTWRITEBYTECODE=1
cd $W/repo; timeout 300 bash $S/demo.sh >$W/d0 2>&1; r0=$?
git apply $S/patch.diff || echo "$id PATCH FAILS"
timeout 300 bash $S/demo.sh >$W/d1 2>&1; r1=$?
t=-
if [ "$2" = test ]; then timeout 600 /opt/venv/bin/python -m pytest -q -x tests >$W/t 2>&1; t=$?; fi
p=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
c=-
if [ "$3" != nocheck ]; then mkdir -p $W/verif; cp -a /verif/check.py /verif/conform /verif/contracts /verif/pyvc /verif/MANIFEST.json /verif/known_findings.txt $W/verif/
cd $W/verif; unset PYTHONPATH; VERIF_REPO=$W/repo VERIF_SEED=1 python3 check.py $p >$W/c 2>&1; c="$? $(grep VIOLATION $W/c | sed 's/replay=[^ ]*//') $(grep -m1 'obligations disch' $W/c)"; fi
echo "$id $p demo clean=$r0 patched=$r1 tests=$t check=$c"
[ $r0 != 0 ] && tail -3 $W/d0
rm -rf "$W"
