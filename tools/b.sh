#!/bin/bash
# developer helper: run the bounded layer of properties, one worker, print failures
for p in "$@"; do PYTHONHASHSEED=${HS:-1} MPLBACKEND=Agg timeout 600 /opt/venv/bin/python /verif/bounded/runner.py $p --out /tmp/o_$p.json --seed ${SEED:-1}; P=$p python3 - <<'PY'
import json,os
try: r=json.load(open('/tmp/o_%s.json'%os.environ["P"]))
except Exception as e: print("no output",e); raise SystemExit
print(os.environ["P"],r['cases'],r['distinct'],round(r['wall'],1))
for f in r['failures']: print('  FAIL',f['family'],f['index'],f['kind'],f['message'][:600], '\n   CASE', f['case'], '\n', f.get('traceback','')[-900:])
PY
done
