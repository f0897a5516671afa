#!/usr/bin/env python3
"""developer aid: list external symbols of the libraries' bitcode that have neither a definition nor a model"""
import sys, os, subprocess, glob, re
sys.path.insert(0,'/verif'); import run
from concurrent.futures import ThreadPoolExecutor
srcs=[s for s in glob.glob('/repo/src/**/*.cpp',recursive=True)]
srcs=[s for s in srcs if '/geneva-opencl' not in s and '/tests' not in s]
pool=ThreadPoolExecutor(8)
def b(s):
    try: return s,run.bitcode(s)
    except Exception as e: return s,str(e)
res=list(pool.map(b,srcs))
models=[run.bitcode('/verif/lib/'+m) for m in run.MODELS]
und={}; df=set()
for s,o in res+[('m',m) for m in models]:
    if not os.path.exists(o): print('FAIL',s,o[:300]); continue
    for l in subprocess.run(['llvm-nm-18',o],stdout=subprocess.PIPE,text=True).stdout.splitlines():
        t=l.split(); 
        if t[-2]=='U': und.setdefault(t[-1],set()).add(os.path.basename(s))
        else: df.add(t[-1])
h=open('/verif/engine/handlers.inc').read()+open('/verif/engine/exec.cpp').read()
names=set(re.findall(r'"([A-Za-z_][A-Za-z0-9_.]*)"',h))
n=[(u,w) for u,w in und.items() if u not in df and u not in names and not u.startswith('llvm.')]
n.sort(key=lambda x:-len(x[1]))
dm=subprocess.run(['c++filt'],input='\n'.join(x[0] for x in n),stdout=subprocess.PIPE,text=True).stdout.splitlines()
for (u,w),d in zip(n,dm): print(len(w),u if '-m' in sys.argv else '',d[:180],sorted(w)[:2])
