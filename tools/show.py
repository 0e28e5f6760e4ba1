#!/usr/bin/env python3
"""Debugging aid: show.py LINE [FIRST] [LAST] prints a trace of /tmp/try.ndjson readably."""
import sys,json,struct
def h(v):
    if isinstance(v,str) and len(v)==16:
        try: return struct.unpack('>d',bytes.fromhex(v))[0]
        except ValueError: return v
    if isinstance(v,list): return [h(x) for x in v]
    if isinstance(v,dict): return {k:h(x) for k,x in v.items()}
    return v
t=h(json.loads(open('/tmp/try.ndjson').read().split('\n')[int(sys.argv[1])-1]))
a=int(sys.argv[2]) if len(sys.argv)>2 else 1
b=int(sys.argv[3]) if len(sys.argv)>3 else 10**9
print(json.dumps(t.get('opt')))
used=set()
for i,e in enumerate(t['ev']):
    if a<=i+1<=b:
        print(i+1,json.dumps(e)[:700]); used|={e.get('p'),e.get('m')}
for i,p in enumerate(t.get('pts',[])):
    if i+1 in used: print(i+1,json.dumps(p)[:600])
