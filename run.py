#!/usr/bin/env python3
"""Driver: symbolic checks of the real Geneva code (see DESIGN.md).

  run.py check <property> [--tier quick|thorough]   decide one property
  run.py replay <file.json>                          re-run a counterexample natively
  run.py setup                                       build engine + warm the bitcode cache
  run.py unit <property> <entry>                     run one unit, print the engine's report
"""
import sys, os, json, hashlib, subprocess, time, re, shutil, fcntl
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
B = os.path.join(V, 'build')
BC = os.path.join(B, 'bc')
EVID = os.path.join(V, 'evidence')
JOBS = 8
sys.path.insert(0, V)

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

class Fail(Exception):
    pass

# ----------------------------------------------------------------------------- engine
def engine_hash():
    h = hashlib.sha1()
    for f in sorted(os.listdir(os.path.join(V, 'engine'))):
        h.update(f.encode()); h.update(open(os.path.join(V, 'engine', f), 'rb').read())
    return h.hexdigest()

def ensure_engine():
    os.makedirs(BC, exist_ok=True)
    stamp = os.path.join(B, 'engine.hash'); want = engine_hash()
    lk = open(os.path.join(B, '.lock'), 'w'); fcntl.flock(lk, fcntl.LOCK_EX)
    try:
        if os.path.exists(os.path.join(B, 'vse')) and os.path.exists(stamp) and open(stamp).read() == want:
            return
        r = sh(['bash', os.path.join(V, 'engine', 'build.sh'), B])
        if r.returncode != 0:
            raise Fail('engine build failed:\n' + r.stdout[-3000:])
        open(stamp, 'w').write(want)
    finally:
        fcntl.flock(lk, fcntl.LOCK_UN)

# ----------------------------------------------------------------------------- bitcode
def gen_header():
    """GGlobalDefines.hpp is produced by cmake and ignored by git: regenerate it from the template."""
    d = os.path.join(B, 'gen', 'common'); os.makedirs(d, exist_ok=True)
    src = os.path.join(REPO, 'include/common/GGlobalDefines.hpp.in')
    t = open(src).read()
    for k, v in (('@GENEVA_API_VERSION@', '01100'), ('@GENEVA_MIN_BOOST_API_VERSION@', '107000'), ('@GENEVA_MIN_BOOST_VERSION@', '1.70')):
        t = t.replace(k, v)
    p = os.path.join(d, 'GGlobalDefines.hpp')
    if not os.path.exists(p) or open(p).read() != t:
        tmp = p + '.%d' % os.getpid(); open(tmp, 'w').write(t); os.rename(tmp, p)

BASE = ['clang++', '-c', '-emit-llvm', '-O0', '-Xclang', '-disable-O0-optnone', '-std=c++17', '-ftemplate-depth=1024',
        '-ffp-contract=off', '-pthread', '-w', '-gline-tables-only']
def defs_for(src):
    lib = os.path.relpath(src, os.path.join(REPO, 'src')).split('/')[0]
    return {'common': ['-DGEM_COMMON_EXPORTS'], 'hap': ['-DGEM_HAP_EXPORTS'], 'courtier': ['-DGEM_COURTIER_EXPORTS'], 'geneva': ['-DGEM_GENEVA_EXPORTS'], 'geneva-individuals': ['-DGEM_GENEVA_INDIVIDUALS_EXPORTS']}.get(lib, [])
COMMON = ['-DDEBUG', '-DGEM_DYNAMIC', '-DGEM_TESTING', '-D_GEM_DUMMY']

def cmd_for(src, flags):
    c = list(BASE)
    inc = ['-I' + os.path.join(V, 'lib', 'shadow'), '-I' + os.path.join(V, 'lib'), '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(B, 'gen'), '-include', 'cstdint']
    if src.startswith(REPO + '/'):
        c += inc + COMMON + defs_for(src)
    elif os.path.dirname(src) == os.path.join(V, 'harness') or os.path.basename(src) == 'randstub.cpp':
        c += inc + COMMON + ['-fno-access-control']
    else:
        c += ['-I' + os.path.join(V, 'lib'), '-fno-access-control']
    return c + list(flags)

def fhash(p, memo={}):
    try:
        st = os.stat(p)
    except OSError:
        return None
    k = (p, st.st_mtime_ns, st.st_size)
    if k not in memo:
        memo[k] = hashlib.sha1(open(p, 'rb').read()).hexdigest()
    return memo[k]

def bitcode(src, flags=()):
    cmd = cmd_for(src, flags)
    key = hashlib.sha1(('\0'.join(cmd) + '\0' + src).encode()).hexdigest()[:16]
    base = os.path.join(BC, os.path.basename(src)[:-4] + '-' + key)
    meta, bc = base + '.json', base + '.bc'
    if os.path.exists(meta) and os.path.exists(bc):
        try:
            m = json.load(open(meta))
            if all(fhash(p) == h for p, h in m.items()):
                return bc
        except ValueError:
            pass
    tmp = base + '.tmp%d' % os.getpid()
    r = sh(cmd + ['-MD', '-MF', tmp + '.d', src, '-o', tmp + '.bc'])
    if r.returncode != 0:
        raise Fail('does not compile: %s\n%s' % (src, r.stdout[:4000]))
    deps = open(tmp + '.d').read().replace('\\\n', ' ').split(':', 1)[1].split()
    m = {}
    for d in deps:
        d = os.path.normpath(d)
        if d.startswith(REPO + '/') or d.startswith(V + '/'):
            m[d] = fhash(d)
    m[src] = fhash(src)
    os.rename(tmp + '.bc', bc)
    json.dump(m, open(tmp, 'w')); os.rename(tmp, meta); os.unlink(tmp + '.d')
    return bc

MODELS = ['support.cpp', 'streams.cpp', 'fsmodel.cpp']
def unit_sources(u):
    s = [(os.path.join(V, 'lib', m), ()) for m in MODELS]
    s += [(os.path.join(REPO, 'src', t), tuple(u.get('tuflags', ()))) for t in u.get('tus', ())]
    s += [(os.path.join(V, 'lib', t), tuple(u.get('flags', ()))) for t in u.get('lib', ())]
    s += [(os.path.join(V, 'harness', u['src']), tuple(u.get('flags', ())))]
    return s

def build_all(units, pool):
    todo = []
    for u in units:
        for s in unit_sources(u):
            if s not in todo:
                todo.append(s)
    # big ones first
    todo.sort(key=lambda s: -os.path.getsize(s[0]) if os.path.exists(s[0]) else 0)
    res = {}
    futs = {s: pool.submit(bitcode, s[0], s[1]) for s in todo}
    err = []
    for s, f in futs.items():
        try:
            res[s] = f.result()
        except Fail as e:
            err.append(str(e))
    if err:
        raise Fail('\n'.join(err[:3]))
    return res

# ----------------------------------------------------------------------------- running
def run_unit(prop, u, bcs, tier, known):
    out = os.path.join(B, 'out'); os.makedirs(out, exist_ok=True)
    rep = os.path.join(out, '%s-%s-%s.json' % (prop, u['entry'], tier))
    if os.path.exists(rep):
        os.unlink(rep)
    files = [bcs[s] for s in unit_sources(u)]
    opts = list(u.get('opts', ()))
    tl = u.get('time', 300) if tier == 'quick' else u.get('ttime', 3600)
    tmp = os.path.join(B, 'tmp'); os.makedirs(tmp, exist_ok=True)
    cmd = [os.path.join(B, 'vse')] + files + ['--entry', u['entry'], '--out', rep, '--time', str(tl), '--tmp', tmp, '--repo-prefix', REPO + '/'] + opts
    for k in known:
        cmd += ['--known', k]
    t0 = time.time()
    try:
        r = sh(cmd, timeout=tl + 120)
        rc, txt = r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        rc, txt = 99, 'engine did not stop'
    d = None
    if os.path.exists(rep):
        try:
            d = json.load(open(rep))
        except ValueError:
            pass
    return {'unit': u, 'rc': rc, 'out': txt, 'rep': d, 'wall': time.time() - t0, 'files': files, 'cmd': cmd}

def missing_reach(u, d):
    return [w for w in u.get('reach', ()) if not d['reach'].get(w)]

_src = {}
def definition_of(sym):
    """sources of /repo which may define an external symbol that was needed during the execution of a unit"""
    if not _src:
        for dp, dn, fn in os.walk(os.path.join(REPO, 'src')):
            for f in fn:
                if f.endswith('.cpp'):
                    p = os.path.join(dp, f); _src[os.path.relpath(p, os.path.join(REPO, 'src'))] = open(p, errors='replace').read()
    table = re.match(r'(?:vtable|VTT|typeinfo|construction vtable) for (.*)', sym)
    name = re.sub(r'<.*', '', table.group(1)) if table else re.sub(r'\[abi:\w+\]', '', sym)
    name = name.split('(')[0].split(' ')[-1]
    if not name.startswith('Gem::'):
        return []
    parts = [x for x in name.split('::') if x]
    if table:
        own = [p for p in _src if os.path.basename(p) == parts[-1] + '.cpp']
        return own or sorted((p for p in _src if re.search(r'\b%s::' % re.escape(parts[-1]), _src[p])), key=lambda p: -len(re.findall(r'\b%s::' % re.escape(parts[-1]), _src[p])))[:1]
    r = [p for p in _src if len(parts) > 1 and re.search(r'\b%s\s*::\s*%s\b' % (re.escape(parts[-2]), re.escape(parts[-1])), _src[p]) and (os.path.basename(p) == parts[-2] + '.cpp')]
    r = r or [p for p in _src if len(parts) > 1 and re.search(r'(?m)^[^/\n;=]*\b%s\s*::\s*%s\b' % (re.escape(parts[-2]), re.escape(parts[-1])), _src[p])]
    r = r or [p for p in _src if re.search(r'(?m)^[\w:<>&*, ]*\b%s\b\s*(\(|=|;|\{)' % re.escape(parts[-1]), _src[p])]
    return sorted(r)[:3]

def write_replay(prop, u, v):
    d = os.path.join(EVID, 'replay'); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%s.json' % (prop, u['entry']))
    vals = os.path.join(d, '%s-%s.vals' % (prop, u['entry']))
    with open(vals, 'w') as f:
        for n, b, h in v['inputs']:
            f.write('%s %d %s\n' % (n.replace(' ', '_'), b, h))
    json.dump({'property': prop, 'entry': u['entry'], 'src': u['src'], 'values': vals, 'violation': v,
               'rerun': 'python3 %s/run.py replay %s' % (V, p)}, open(p, 'w'), indent=1)
    return p, vals

def native_build(u, bcs):
    d = os.path.join(B, 'native'); os.makedirs(d, exist_ok=True)
    files = list(dict.fromkeys(bcs[s] for s in unit_sources(u) if os.path.dirname(s[0]) != os.path.join(V, 'lib') or os.path.basename(s[0]) not in MODELS))
    exe = os.path.join(d, '%s-%d' % (u['entry'], os.getpid()))
    objs = []
    def one(f):
        o = os.path.join(d, os.path.basename(f)[:-3] + '.o')
        if not os.path.exists(o) or os.path.getmtime(o) < os.path.getmtime(f):
            r = sh(['clang++', '-c', '-fPIC', '-w', '-x', 'ir', f, '-o', o + '.t%d' % os.getpid()])
            if r.returncode != 0:
                raise Fail(r.stdout[-2000:])
            os.rename(o + '.t%d' % os.getpid(), o)
        return o
    with ThreadPoolExecutor(JOBS) as p:
        objs = list(p.map(one, files))
    libs = ['-lboost_' + x for x in ('serialization', 'program_options', 'system', 'thread', 'chrono', 'date_time', 'regex') if True]
    r = sh(['clang++', '-std=c++17', '-w', '-O0', '-pthread', '-DENTRY=' + u['entry'], os.path.join(V, 'lib', 'vsnative.cpp')] + objs + ['-o', exe, '-rdynamic', '-Wl,--unresolved-symbols=ignore-all', '-Wl,-z,lazy'] + libs + ['-lpthread', '-ldl', '-lm'])
    if r.returncode != 0:
        raise Fail('native link: ' + r.stdout[-2000:])
    return exe

def native_run(u, bcs, vals, limit=60):
    exe = native_build(u, bcs)
    try:
        e = dict(os.environ); e['VS_REPLAY'] = vals
        w = os.path.join(B, 'tmp', 'n%d' % os.getpid()); os.makedirs(w, exist_ok=True)
        try:
            r = sh([exe], env=e, timeout=limit, cwd=w)
            return r.returncode, r.stdout[-3000:]
        except subprocess.TimeoutExpired:
            return 'timeout', 'native run did not finish within %d s' % limit
        finally:
            shutil.rmtree(w, ignore_errors=True)
    finally:
        os.unlink(exe)

def load_known():
    p = os.path.join(V, 'known_findings.txt'); r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r'known: property=(\S+) id=(\S+) (.*)', l)
            if m:
                r.append(m.groups())
    return r

def check(prop, tier):
    import registry
    t0 = time.time()
    gen_header(); ensure_engine()
    import props
    P = dict(registry.PROPS[prop]); P['bounds'] = props.T.get(prop, {}).get('bounds', ''); P.setdefault('explanation', props.T.get(prop, {}).get('qtext', '')); P.setdefault('assumptions', ['engine, solver and the runtime models in lib/ are correct'] + ([props.T[prop]['note']] if props.T.get(prop, {}).get('note') else []))
    units = [u for u in P['units'] if tier in u.get('tiers', ('quick', 'thorough'))]
    known = [k for k in load_known() if k[0] == prop]
    results = []; errs = []
    with ThreadPoolExecutor(JOBS) as pool:
        bcs = build_all(units, pool)
        tb = time.time() - t0
        units.sort(key=lambda u: -u.get('cost', 1))
        results = list(pool.map(lambda u: run_unit(prop, u, bcs, tier, [k[1] for k in known]), units))
        # a change of the code may need functions of further translation units
        for _ in range(4):
            again = []
            for i, r in enumerate(results):
                d = r['rep']
                if d is None or not (d['violations'] or d['status'] != 'ok' or missing_reach(r['unit'], d)):
                    continue
                have = set(r['unit'].get('tus', ()))
                add = [t for x in d.get('external', ()) for t in definition_of(x) if t not in have]
                if add:
                    again.append((i, dict(r['unit'], tus=list(r['unit'].get('tus', ())) + sorted(set(add)))))
            if not again:
                break
            try:
                bcs.update(build_all([u for _, u in again], pool))
            except Fail as e:
                break
            for (i, u), r in zip(again, pool.map(lambda x: run_unit(prop, x[1], bcs, tier, [k[1] for k in known]), again)):
                if r['rep'] is not None:
                    results[i] = r
    nviol = 0; seenKnown = {}; lines = []
    viol_out = []
    for r in results:
        u, d = r['unit'], r['rep']
        if d is None:
            errs.append('%s: engine failure rc=%s: %s' % (u['entry'], r['rc'], r['out'][-800:])); continue
        for k in d['known']:
            seenKnown[k] = seenKnown.get(k, 0) + d['known'][k]
        if d['violations']:
            failed = None
            for v in d['violations'][:4]:
                path, vals = write_replay(prop, u, v)
                conf = 'engine'; failed = None
                if u.get('native', True):
                    try:
                        rc, txt = native_run(u, bcs, vals)
                    except Fail as e:
                        rc, txt = 'build', str(e)
                    j = json.load(open(path)); j['native'] = {'rc': rc, 'out': txt}; json.dump(j, open(path, 'w'), indent=1)
                    if v['kind'] in ('assert', 'uncaught', 'terminate'):
                        if rc in (42, 43, 134, -6) or (isinstance(rc, int) and rc < 0):
                            conf = 'reproduced natively (rc %s)' % rc
                        elif rc == 50 or rc == 0:
                            if not u.get('threads') and not u.get('model_env'):
                                failed = '%s: counterexample "%s" does not reproduce natively (rc %s); see %s' % (u['entry'], v['msg'], rc, path); continue
                            conf = 'schedule/environment counterexample; replay with the engine'
                        else:
                            conf = 'native replay inconclusive (rc %s)' % rc
                    else:
                        conf = '%s found symbolically; native run rc %s' % (v['kind'], rc)
                break
            if failed:
                errs.append(failed); continue
            nviol += 1
            viol_out.append({'unit': u['entry'], 'kind': v['kind'], 'msg': v['msg'], 'loc': v['loc'], 'replay': path, 'confirmation': conf})
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  unit %s: %s: %s' % (u['entry'], v['kind'], v['msg']))
            print('  at %s [%s]' % (v['loc'], conf))
            for n, b, h in v['inputs'][:24]:
                print('    %s = %s' % (n, h))
            for s in v['stack'][:12]:
                print('    ' + s)
            continue
        if d['status'] != 'ok':
            errs.append('%s: incomplete: %s' % (u['entry'], '; '.join(d['incomplete'][:4])))
        miss = missing_reach(u, d)
        if miss and d['status'] == 'ok' and not u.get('threads') and d['paths']:
            # all paths were explored: an outcome that has to be possible is impossible
            v = {'kind': 'impossible', 'msg': 'no input leads to the outcome "%s"' % miss[0], 'loc': u['src'], 'stack': [], 'inputs': [], 'schedule': []}
            path, vals = write_replay(prop, u, v); nviol += 1
            viol_out.append({'unit': u['entry'], 'kind': v['kind'], 'msg': v['msg'], 'loc': v['loc'], 'replay': path, 'confirmation': 'complete exploration'})
            print('VIOLATION property=%s replay=%s' % (prop, path)); print('  unit %s: %s' % (u['entry'], v['msg'])); continue
        for w in miss:
            errs.append('%s: vacuous: never reached "%s"' % (u['entry'], w))
        if not u.get('reach') and not d['asserts_checked']:
            errs.append('%s: vacuous: no assertion evaluated' % u['entry'])
    for k in known:
        if seenKnown.get(k[1]):
            print('KNOWN-FINDING: property=%s %s' % (prop, k[2]))
    # evidence
    fns = sorted(set(f for r in results if r['rep'] for f in r['rep']['functions']))
    tot = lambda key: sum(r['rep'][key] for r in results if r['rep'])
    st = lambda key: round(sum(r['rep']['solver'][key] for r in results if r['rep']), 3)
    samples = []
    for r in results:
        if r['rep']:
            for x in r['rep']['samples'][:2]:
                samples.append(r['unit']['entry'] + ' ' + x)
    cov = {'states': max(1, tot('paths')), 'transitions': max(1, tot('steps')), 'traces_validated_against_impl': len(viol_out), 'samples': samples[:12] or ['none'],
           'explanation': P.get('explanation', ''), 'paths': tot('paths'), 'forks': tot('forks'), 'assertions_decided': tot('asserts_checked'), 'assertions_constant': tot('asserts_trivial'),
           'solver_queries': st('queries'), 'solver_sat': st('sat'), 'solver_unsat': st('unsat'), 'solver_unknown': st('unknown'), 'solver_time_s': st('time_s'),
           'functions_encoded': fns, 'bounds': P.get('bounds', ''),
           'units': [{'entry': r['unit']['entry'], 'bound': r['unit'].get('bound', ''), 'status': r['rep']['status'] if r['rep'] else 'error', 'wall_s': round(r['wall'], 2),
                      'paths': r['rep']['paths'] if r['rep'] else 0, 'queries': r['rep']['solver']['queries'] if r['rep'] else 0,
                      'solver_s': round(r['rep']['solver']['time_s'], 2) if r['rep'] else 0, 'switches': r['rep']['switches'] if r['rep'] else 0,
                      'reach': r['rep']['reach'] if r['rep'] else {}, 'incomplete': r['rep']['incomplete'] if r['rep'] else []} for r in results]}
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': P.get('level', 'model_checking'), 'coverage': cov,
          'wall_s': round(time.time() - t0, 2), 'assumptions': P.get('assumptions', []), 'violations': len(viol_out), 'violation_details': viol_out, 'errors': errs, 'build_s': round(tb, 2)}
    os.makedirs(EVID, exist_ok=True)
    p = os.path.join(EVID, prop + '.json'); json.dump(ev, open(p + '.tmp', 'w'), indent=1); os.rename(p + '.tmp', p)
    print('%s [%s]: %d units, %d paths, %d assertions decided, %d solver queries (%.1f s), %d functions, %.1f s' % (prop, tier, len(results), cov['paths'], cov['assertions_decided'], cov['solver_queries'], cov['solver_time_s'], len(fns), ev['wall_s']))
    if nviol:
        return 1
    if errs:
        for e in errs:
            print('ERROR ' + e)
        return 3
    return 0

def all_units():
    import registry
    return [u for P in registry.PROPS.values() for u in P['units']]

def main():
    a = sys.argv[1:]
    try:
        if a[0] == 'check':
            tier = 'quick'
            if '--tier' in a:
                tier = a[a.index('--tier') + 1]
            return check(a[1], tier)
        if a[0] == 'setup':
            gen_header(); ensure_engine()
            with ThreadPoolExecutor(JOBS) as pool:
                try:
                    build_all(all_units(), pool)
                except Fail as e:
                    print('warning: ' + str(e)[:2000])
            return 0
        if a[0] == 'unit':
            import registry
            gen_header(); ensure_engine()
            u = [x for x in registry.PROPS[a[1]]['units'] if x['entry'] == a[2]][0]
            with ThreadPoolExecutor(JOBS) as pool:
                bcs = build_all([u], pool)
            r = run_unit(a[1], u, bcs, 'quick', [k[1] for k in load_known() if k[0] == a[1]])
            d = r['rep']
            if d is None:
                print(r['out'][-3000:]); return 3
            d['functions'] = len(d['functions'])
            print(json.dumps(d, indent=1)[:8000]); print('wall', round(r['wall'], 2)); print(r['out'][-1500:])
            if '-c' in a:
                print(' '.join(r['cmd']))
            return 0
        if a[0] == 'replay':
            import registry
            j = json.load(open(a[1])); u = [x for x in registry.PROPS[j['property']]['units'] if x['entry'] == j['entry']][0]
            gen_header(); ensure_engine()
            with ThreadPoolExecutor(JOBS) as pool:
                bcs = build_all([u], pool)
            rc, txt = native_run(u, bcs, j['values']); print(txt); print('rc', rc)
            return 0
    except Fail as e:
        print('ERROR ' + str(e)); return 3
    print(__doc__); return 2

if __name__ == '__main__':
    sys.exit(main())
