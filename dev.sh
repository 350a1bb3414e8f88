#!/bin/sh
# dev.sh HARNESS PROP COUNT [VARIANT] [extra args]: build and run one worker, short report
cd /verif; h=$1; p=$2; n=$3; v=${4:-plain}; shift 3; [ $# -gt 0 ] && shift
out=$(python3 check.py --build $h $v) || { echo "$out"; exit 2; }
B=$(ls -dt build/h-$h-*|head -1); mkdir -p /tmp/w/viol
$B/run-$v --count $n --viol /tmp/w/viol --opt prop=$p --opt variant=$v "$@" 2>/tmp/w/dev.err | python3 -c "
import json,sys
for l in sys.stdin:
  if not l.startswith('{'): print(l,end=''); continue
  d=json.loads(l)
  print('runs',d['runs'],'wall',d['wall_s'],'distinct',len(d['unique']),'states',len(d['states']),'sim_s',d['sim_s'],'calls/run',d['calls']//max(1,d['runs']),'ch/run',d['choices']//max(1,d['runs']),'caps',d['caps'],'err',d['errors'],d['errcls'])
  print(' '.join('%s=%d/%d'%(k,a[0],a[1]) for k,a in d['counts'].items()))
  print(d['classes'])
  for x in d['viol']: print(x['run'],x['class'],x['msg'],x['file'],x['same'],x['replays'])
"
