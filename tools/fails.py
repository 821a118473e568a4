#!/usr/bin/env python3
"""show the failing events of a trace: fails.py TRACE TLCOUT [max]"""
import sys,json,re
ev={}
lines=open(sys.argv[1]).read().splitlines()
n=int(sys.argv[3]) if len(sys.argv)>3 else 10
sig={}
for m in re.finditer(r'"FAIL (\d+) (\d+) (.*?)"$',open(sys.argv[2]).read(),re.M|re.S):
    s,l,exp=int(m[1]),int(m[2]),m[3][:400]
    e=json.loads(lines[s-1])["ev"][l-1]
    key=(e.get("e"),e.get("op"),e.get("r",{}).get("k"),e.get("r",{}).get("msg","")[:60],e.get("inf"))
    sig.setdefault(key,[]).append((s,l,e,exp))
for k,v in sorted(sig.items(),key=lambda kv:-len(kv[1])):
    print(len(v),k)
    for s,l,e,exp in v[:2]:
        t=json.loads(lines[s-1])["ev"]
        src=[x for x in t if x.get("t")==e.get("src") and x["e"] in("new","view")] if "src" in e else []
        print("   s",s,l,json.dumps(e)[:600]); print("    EXP",exp.replace("\n"," "))
        for x in src: print("    SRC",json.dumps({k:x[k] for k in x if k!="data"})[:400])
