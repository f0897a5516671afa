#!/usr/bin/env python3
"""developer aid: tools_slow.py PROP ENTRY [time] [depth] - show slow queries of a unit"""
import sys,os; sys.path.insert(0,__import__('os').path.dirname(__import__('os').path.abspath(__file__))); import registry, run
from concurrent.futures import ThreadPoolExecutor
os.environ['VSE_SLOWQ']='1'; os.environ['VSE_DEPTH']=sys.argv[4] if len(sys.argv)>4 else '5'
u=dict([x for x in registry.PROPS[sys.argv[1]]['units'] if x['entry']==sys.argv[2]][0]); u['time']=int(sys.argv[3]) if len(sys.argv)>3 else 60
run.gen_header(); run.ensure_engine()
with ThreadPoolExecutor(8) as p: b=run.build_all([u],p)
r=run.run_unit(sys.argv[1],u,b,'quick',[]); print(r['out'][:6000])
