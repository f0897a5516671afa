#!/usr/bin/env python3
"""developer aid: create and check planted bugs.
  tools_seed.py verify ID...   in the scratch copy /tmp/seed/repo: demo on the unchanged tree, apply, build, test, demo, undo
  tools_seed.py catch ID...    run the property's quick check against a scratch copy with the patch applied"""
import sys, os, subprocess, json
V='/verif'; S='/tmp/seed/repo'
def sh(c, cwd=S, t=1200, env=None):
    try: r=subprocess.run(c,shell=True,executable='/bin/bash',cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',timeout=t,env=env); return r.returncode,r.stdout
    except subprocess.TimeoutExpired: return 'timeout',''
def make(sid, prop, edits, needs, breaks, demo, libs='common', S='/tmp/seed/crepo'):
    if not os.path.exists(S): sh(f'git clone -q /repo {S}',cwd='/tmp')
    sh('git pull -q',cwd=S)
    d=f'{V}/seeded/{sid}'; os.makedirs(d,exist_ok=True)
    sh('git checkout -q -- .',cwd=S)
    for f,old,new in edits:
        p=f'{S}/{f}'; t=open(p).read(); assert t.count(old)>=1,(sid,f,old); n=1
        open(p,'w').write(t.replace(old,new,1))
    _,o=sh('git diff',cwd=S); open(d+'/patch.diff','w').write(o); sh('git checkout -q -- .',cwd=S)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
    open(d+'/demo.cpp','w').write(demo)
    L=['common','hap','courtier','geneva','geneva-individuals']; L=L[:L.index(libs)+1]
    ll=' '.join(f'-L"$R/_build/src/{x}" -Wl,-rpath,"$R/_build/src/{x}"' for x in L)+' '+' '.join(f'-lgemfony-{x}' for x in reversed(L))
    open(d+'/demo.sh','w').write(f'''#!/bin/bash
# exit 0 on the unchanged tree, nonzero if the property is broken
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O0 -w -include cstdint -ftemplate-depth=1024 -pthread -DDEBUG -DGEM_DYNAMIC -DGEM_TESTING -DBOOST_TEST_DYN_LINK -I"$R/include" "$D/demo.cpp" -o "$T/demo" {ll} -lboost_serialization -lboost_unit_test_framework -lboost_program_options -lboost_system -lboost_thread -lboost_chrono -lboost_date_time -lboost_regex -lboost_filesystem -lpthread || exit 99
cd "$T" && timeout 120 ./demo
''')
    os.chmod(d+'/demo.sh',0o755)
def build(): return sh('/usr/bin/cmake -S . -B _build -G Ninja -Wno-dev -DGENEVA_BUILD_TYPE=Debug -DGENEVA_BUILD_TESTS=TRUE -DGENEVA_BUILD_EXAMPLES=FALSE -DGENEVA_BUILD_BENCHMARKS=FALSE "-DCMAKE_CXX_FLAGS=-Wno-error -include cstdint" >/dev/null && nice ninja -j6 -C _build 2>&1 | tail -15; exit ${PIPESTATUS[0]}', t=3000, env=dict(os.environ,CC='/usr/bin/gcc',CXX='/usr/bin/g++'))
TESTS=r'''
rc=0; cd /tmp/seed/repo/_build
for x in common/UnitTests/CommonStandardTests hap/UnitTests/GHapStandardTests geneva/UnitTests/GenevaStandardTests; do d=$(mktemp -d); ( cd $d && timeout 280 /tmp/seed/repo/_build/tests/$x --log_level=error --report_level=short >out 2>&1 ) || { echo FAIL $x; tail -15 $d/out; rc=1; }; rm -rf $d; done
for d in common hap geneva; do timeout 300 ctest --test-dir /tmp/seed/repo/_build/tests/$d -j6 --timeout 100 -E 'StandardTests$' 2>&1 | grep -E "Failed|tests passed|Timeout"; done; exit $rc'''
def verify(sid):
    d=f'{V}/seeded/{sid}'
    sh('git pull -q /repo main')
    c,o=sh(f'bash {d}/demo.sh'); print(sid,'demo unchanged rc',c,o[-300:] if c else '',flush=True)
    c,o=sh(f'git apply {d}/patch.diff'); assert c==0,o
    try:
        c,o=build(); print(sid,'build',c,o[-600:] if c else '',flush=True)
        c,o=sh(f'bash {d}/demo.sh'); print(sid,'demo patched rc',c,o[-200:],flush=True)
        c,o=sh(TESTS,t=1500); print(sid,'tests',c,o[-900:],flush=True)
    finally: sh('git checkout -q -- .')
if __name__=='__main__':
    if sys.argv[1]=='base': print(build()[1][-300:])
    elif sys.argv[1]=='verify':
        for s in sys.argv[2:]: verify(s)
    elif sys.argv[1]=='catch':
        C='/tmp/seed/crepo2'
        if not os.path.exists(C): sh(f'git clone -q /repo {C}',cwd='/tmp')
        for s in sys.argv[2:]:
            sh('git checkout -q -- . && git pull -q',cwd=C); d=f'{V}/seeded/{s}'; m=json.load(open(d+'/meta.json'))
            c,o=sh(f'git apply {d}/patch.diff',cwd=C); assert c==0,o
            c,o=sh(f'python3 {V}/run.py check {m["property"]}',cwd=V,env=dict(os.environ,VERIF_REPO=C)); print(s,m['property'],'rc',c,o[-1500:] if c!=1 else '\n'.join(l for l in o.splitlines() if 'unit' in l or 'VIOL' in l or '  at ' in l),flush=True)
            sh('git checkout -q -- .',cwd=C)
