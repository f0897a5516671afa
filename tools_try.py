#!/usr/bin/env python3
"""developer aid: tools_try.py PROP ENTRY file.cpp [time] - run one unit with another harness file"""
import sys; sys.path.insert(0,__import__('os').path.dirname(__import__('os').path.abspath(__file__))); import registry, run
from concurrent.futures import ThreadPoolExecutor
u=dict([x for x in registry.PROPS[sys.argv[1]]['units'] if x['entry']==sys.argv[2]][0]); u['src']=sys.argv[3]; u['time']=int(sys.argv[4]) if len(sys.argv)>4 else 60
run.gen_header(); run.ensure_engine()
with ThreadPoolExecutor(8) as p: b=run.build_all([u],p)
r=run.run_unit(sys.argv[1],u,b,'quick',[]); d=r['rep']
print(r['out'][-500:] if d is None else (d['status'],d['paths'],d['incomplete'],d['reach'],round(r['wall'],2),d['solver'],d['violations'][:1]))
