#!/bin/bash
# usage: confirm.sh ID [check]   confirm a planted bug in a scratch copy (never in /repo); optionally run the check on it
ID=$1; D=/verif/seeded/$ID; W=/tmp/seed/$ID
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
mkdir -p /tmp/seed; rm -rf /tmp/seed/$ID /tmp/seed/$ID.clean
git -C /repo worktree prune
git clone -q /repo $W && cd $W && git apply $D/patch.diff || { echo "$ID PATCH FAILS"; exit 2; }
env() { :; }
LIBC=$(VERIF_REPO=/repo python3 /verif/lib/build.py 2>/dev/null) || { echo "$ID clean build fails"; exit 2; }
LIBP=$(VERIF_REPO=$W python3 /verif/lib/build.py 2>/dev/null) || { echo "$ID BUILD FAILS"; exit 2; }
cd /repo; ACV_LIB=$LIBC timeout 300 bash $D/demo.sh > /tmp/seed/$ID.democlean 2>&1; A=$?
cd $W; ACV_LIB=$LIBP timeout 300 bash $D/demo.sh > /tmp/seed/$ID.demobug 2>&1; B=$?
echo "$ID demo clean=$A patched=$B"
if [ "$2" != notest ]; then
export HOME=/root PYTHONPATH=$LIBP:$W PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg MPLCONFIGDIR=/opt/acv-build/mpl OPENBLAS_NUM_THREADS=1 OMP_WAIT_POLICY=passive
cd $W
T=$(python3 - <<'Q'
import json
for t in json.load(open('/opt/vp/BASELINE.json'))['stable']:
    m,f=t.split('::'); print(m.replace('.','/')+'.py::'+f)
Q
)
/opt/pypyvenv/bin/python -m pytest -q -p no:cacheprovider --tb=line --timeout=240 $T > /tmp/seed/$ID.tests 2>&1; tail -1 /tmp/seed/$ID.tests
unset PYTHONPATH
fi
cd /verif
VERIF_REPO=$W timeout 900 bin/check $P quick > /tmp/seed/$ID.check 2>&1; C=$?
echo "$ID check $P exit=$C $(grep -m1 VIOLATION /tmp/seed/$ID.check)"; grep -m1 '^  \[' /tmp/seed/$ID.check | cut -c1-200
rm -rf /tmp/seed/$ID
