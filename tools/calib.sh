#!/bin/bash
# calib.sh ID "seeds" [extra args]: run check at several seeds, show worst ratios
cd ${VD:-/verif}
for s in $2; do VERIF_SEED=$s /opt/venv/bin/python run.py $1 "${@:3}" > /tmp/calib.$1.$s.log 2>&1; echo "seed $s rc=$?"; grep -E "cases|VIOL|message|HARN|Error|failing" /tmp/calib.$1.$s.log | cut -c1-600; cp evidence/$1.json /tmp/calib.$1.$s.json; done
python3 - "$1" $2 <<'P'
import sys,json
r={};c={}
for s in sys.argv[2:]:
    d=json.load(open(f'/tmp/calib.{sys.argv[1]}.{s}.json'))['coverage']
    for k,v in d['max_error_over_tolerance'].items(): r[k]=max(v,r.get(k,0))
    c=d
print({k:v for k,v in r.items()}); print(c['classes']); print(c['families'], 'disc',c['discarded'],'skip',c['skipped_after_budget'])
P
