#!/usr/bin/env python3
"""developer aid: per-unit timings of the last run of a property"""
import json,sys
for p in sys.argv[1:]:
    for u in sorted(json.load(open('/verif/evidence/%s.json'%p))['coverage']['units'],key=lambda u:-u['wall_s']): print(p,u['entry'],u['status'],u['wall_s'],'paths',u['paths'],'q',u['queries'],'s',u['solver_s'],u['reach'])
