#!/bin/bash
# case.sh module:case [seconds] [seed] [first]: drive one case generator and print the failure
cd /verif
TZ=UTC PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent /opt/venv-pypy/bin/python -W ignore concrete/worker.py $1 ${3:-1} ${2:-10} 1000000 /tmp/out.json ${4:-0}
python3 -c "
import json;d=json.load(open('/tmp/out.json'));print('$1',d['cases'],d['error'] or '');print(json.dumps(d['failure'],indent=1) if d['failure'] else 'ok')"
