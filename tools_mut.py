#!/usr/bin/env python3
"""developer aid: random mutants of the lines a property's check executes; reports those which survive.
  tools_mut.py PROP N SEED      (VERIF_REPO must name a scratch clone which may be changed)"""
import sys, os, re, random, json, subprocess, time
V=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,V)
REPO=os.environ['VERIF_REPO']; assert REPO!='/repo'
import run, registry, props
from concurrent.futures import ThreadPoolExecutor
prop,N,seed=sys.argv[1],int(sys.argv[2]),int(sys.argv[3]); rnd=random.Random(seed)
only=sys.argv[4] if len(sys.argv)>4 else None
cov='/tmp/cov/'+prop; os.makedirs(cov,exist_ok=True)
subprocess.run(['git','checkout','-q','--','.'],cwd=REPO)
run.gen_header(); run.ensure_engine()
units=[u for u in registry.PROPS[prop]['units'] if 'quick' in u.get('tiers',('quick','thorough'))]
known=[k[1] for k in run.load_known() if k[0]==prop]
pool=ThreadPoolExecutor(8)
files=set(f for f in props.T[prop].get('files',props.T[prop].get('where',[])))
os.environ['VSE_COVER']=cov
if any(not os.path.exists(cov+'/'+u['entry']) for u in units):
    bcs=run.build_all(units,pool); list(pool.map(lambda u: run.run_unit(prop,u,bcs,'quick',known),units))
lines={}
for u in units:
    p=cov+'/'+u['entry']
    if not os.path.exists(p): print('no coverage',u['entry']); continue
    for l in open(p):
        f,n=l.strip().rsplit(':',1); f=os.path.normpath(f)
        m=re.match(r'.*?/((?:src|include)/.*)',f)
        if m and m.group(1) in files and (not only or only in m.group(1)): lines.setdefault((m.group(1),int(n)),set()).add(u['entry'])
del os.environ['VSE_COVER']
OPS=[(r'(?<=\s)<=(?=\s)','<'),(r'(?<=\s)>=(?=\s)','>'),(r'(?<=\s)<(?=\s)','<='),(r'(?<=\s)>(?=\s)','>='),(r'(?<=\s)==(?=\s)','!='),(r'(?<=\s)!=(?=\s)','=='),(r'(?<=\s)==(?=\s)','!='),
 (r'&&','||'),(r'(?<!\|)\|\|(?!\|)','&&'),(r'\btrue\b','false'),(r'\bfalse\b','true'),(r'\bnot ',''),(r'(?<=\()!(?=\w)',''),(r'(?<=\s)\+(?=\s)','-'),(r'(?<=\s)-(?=\s)','+'),(r'(?<=\s)\*(?=\s)','/'),
 (r'\+=','-='),(r'-=','+='),(r'(?<![\w.])0(?![\w.])','1'),(r'(?<![\w.])1(?![\w.])','0'),(r'(?<![\w.])1(?![\w.])','2'),(r'\+\+(?=\w)','--'),(r'\bmin\b','max'),(r'\bmax\b','min'),(r'\.begin\(\)','.end()'),(r'\.front\(\)','.back()'),(r'\.back\(\)','.front()')]
DEL=re.compile(r'^\s+(?!return|const|auto|using|throw|case|break|typedef|static|else|delete|std::\w+<)[A-Za-z_][\w.\->:\[\]()*]*\s*(\(.*\)|[-+*/]?=.*|\+\+|--);\s*(//.*)?$')
cands=[]
for (f,n),es in lines.items():
    L=open(f'{REPO}/{f}',errors='replace').read().split('\n'); t=L[n-1]; c=t.split('//')[0]
    if '<<' in c or re.match(r'\s*(throw|\*|//|,|template|#)',c) or 'g_error' in c or 'std::string(' in c or 'std::endl' in c: continue
    if DEL.match(t) and L[n-1].count('(')==L[n-1].count(')'): cands.append((f,n,t,'/* removed */'+re.match(r'\s*',t).group()+';',es))
    for a,b in OPS:
        ms=list(re.finditer(a,c))
        if ms:
            m=rnd.choice(ms); cands.append((f,n,t,t[:m.start()]+b+t[m.end():],es))
    if re.match(r'\s*break;',c): cands.append((f,n,t,t.replace('break;','/*break*/;'),es))
    m=re.match(r'(\s*)if ?\((.*)\) ?\{\s*$',t)
    if m: cands.append((f,n,t,f'{m.group(1)}if(false && ({m.group(2)})) {{',es)); cands.append((f,n,t,f'{m.group(1)}if(true || ({m.group(2)})) {{',es))
rnd.shuffle(cands)
print(prop,'lines',len(lines),'candidates',len(cands),flush=True)
st={'caught':0,'survived':0,'error':0,'nocompile':0}; done=0; seen=set()
E=dict((u['entry'],u) for u in units)
for f,n,t,new,es in cands:
    if done>=N: break
    if (f,n) in seen: continue
    seen.add((f,n)); p=f'{REPO}/{f}'; src=open(p,errors='surrogateescape').read(); L=src.split('\n'); L[n-1]=new
    open(p,'w',errors='surrogateescape').write('\n'.join(L)); t0=time.time()
    try:
        us=sorted((E[e] for e in es),key=lambda u:u.get('cost',1))
        try: bcs=run.build_all(us,pool)
        except run.Fail as e: st['nocompile']+=1; print('nocompile',f,n,new.strip()[:80],flush=True); continue
        done+=1; res='survived'; why=''; stop=[False]
        def one(u):
            if stop[0]: return None
            r=run.run_unit(prop,u,bcs,'quick',known); d=r['rep']
            if d and (d['violations'] or (d['status']=='ok' and not u.get('threads') and run.missing_reach(u,d))): stop[0]=True
            return u,r
        for x in pool.map(one,us):
            if x is None: continue
            u,r=x; d=r['rep']
            if d is None: res='error' if res=='survived' else res; why=why or u['entry']+' engine failure '+r['out'][-100:]; continue
            if d['violations']: res='caught'; why=u['entry']+': '+d['violations'][0]['msg']; break
            if d['status']!='ok':
                if res!='caught': res='error'; why=u['entry']+': '+'; '.join(d['incomplete'][:1])[:200]
            elif run.missing_reach(u,d):
                if u.get('threads'):
                    if res!='caught': res='error'; why=u['entry']+' missing reach'
                else: res='caught'; why=u['entry']+' reach '+str(run.missing_reach(u,d)); break
        st[res]+=1; print(f'{res:9s} {f}:{n} [{t.strip()[:90]}] -> [{new.strip()[:90]}] units {len(us)} {why[:160]} ({time.time()-t0:.0f}s)',flush=True)
    finally: open(p,'w',errors='surrogateescape').write(src)
print(prop,st,flush=True)
