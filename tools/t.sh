#!/bin/bash
# t.sh CRATE PID... : build and run checks while developing
cr=$1; shift
/verif/tools/b.sh -p $cr 2>&1 | grep -E "^(error|warning: unu)" -A7 | grep -v "^warning: unused import: .OpenCF"  | head -${LINES_MAX:-60}
mkdir -p /tmp/o
for p in "$@"; do rm -rf /tmp/o/s; rm -f /tmp/o/$p.json
timeout ${TMO:-120} /verif/build/target/debug/$cr $p --out /tmp/o/$p.json --scratch /tmp/o/s --tier ${TIER:-quick} --seed ${SEED:-1} --budget ${BUDGET:-20} 2>&1 | tail -${TAIL:-5} | cut -c1-300
python3 - <<P
import json
r=json.load(open('/tmp/o/$p.json'))
print('$p','judgements',r['counters'].get('oracle.judgements'),'distinct',r['distinct'],'wall',round(r['wall_s'],1),'crash',r['crashed'])
import os
if os.environ.get('V'): print(json.dumps(r['counters'],indent=0)); print(r['notes'])
for v in r['violations']: print(' *',v['key'],'|',v['what'][:400],'|',str(v['detail'])[:int(os.environ.get('D','250'))])
P
done
