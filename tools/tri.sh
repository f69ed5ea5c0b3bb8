#!/bin/bash
# triage: run one label's jobs of a property and show every distinct counterexample
cd "$(dirname "$0")/.."
python3 check.py "$@" -v > /tmp/tri.$1.log 2>&1
python3 - $1 <<'P'
import sys,glob,os,json
d='/verif/build/replays/'+sys.argv[1]
import re
log=open('/tmp/tri.%s.log'%sys.argv[1]).read()
m=log.find('VIOLATION')
for f in sorted(glob.glob(d+'/*.txt'),key=os.path.getmtime):
    if os.path.getmtime(f)<os.path.getmtime('/tmp/tri.%s.log'%sys.argv[1])-5: continue
    v=json.load(open(f)); print('##',v['kind'],'|',v['msg'],'|',v['job']); print('   ',v['stack'][:420])
    t=open(f[:-4]).read().split('\n'); print('   ',' '.join(x.replace('param ','').replace(' ','=') for x in t if x.startswith('param')))
    print('   ',' '.join(re.sub(r'^sym (\S+) \d+ ',r'\1=',x) for x in t if x.startswith('sym') and 'crc' not in x)[:700])
P
grep "NOTE\|^C[0-9]" /tmp/tri.$1.log | cut -c1-300
