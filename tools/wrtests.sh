#!/bin/bash
# run the stable tests against another working tree ($1, default /tmp/wr) with extensions from vlib.build; prints missing ones
W=${1:-/tmp/wr}
mkdir -p /tmp/plug
printf 'import sys; sys.path.insert(0,"/verif")\nfrom vlib import build; build.install()\n' > /tmp/plug/verif_plug.py
export VERIF_REPO=$W PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH=/tmp/plug:$W/src PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 HOME=/root LANG=C.UTF-8 PATH=/opt/venv/bin:$PATH
cd $W/test && /opt/venv/bin/python -m pytest -q -p verif_plug -p no:cacheprovider --rootdir=$W --timeout=300 -W ignore -n 6 --dist loadscope -o junit_family=xunit2 --junitxml=/tmp/wr-junit.xml . >/tmp/wr-test.log 2>&1
python3 /opt/vp/results.py /tmp/wr-o.json junit:/tmp/wr-junit.xml
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open('/tmp/wr-o.json'))
m=sorted(set(b)-set(o['passed'])); print('missing', len(m)); print('\n'.join(m[:20]))
P
