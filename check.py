#!/usr/bin/env python3
"""Decide one property by symbolic execution of the real code (see DESIGN.md).
   check.py PROPERTY [quick|thorough]        decide the property on /repo's working tree
   check.py --replay FILE                    run a recorded counterexample against the native build"""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.abspath(__file__)); E = V + '/engine'
REPO = os.environ.get('NS_REPO_DIR', '/repo')
PYV = '/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3'
sys.path.insert(0, V)
from spec import SPEC, FILES
JOBS = int(os.environ.get('NS_JOBS', '8'))
T0 = time.time()

def sh(cmd, cwd=None, env=None, **kw):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

class BuildError(Exception): pass
def must(cmd, env=None):
    r = sh(cmd, env=env)
    if r.returncode: raise BuildError(' '.join(cmd) + '\n' + r.stdout[-4000:])
    return r.stdout

def engine_hash():
    h = hashlib.sha256()
    for f in ('nspass.cpp', 'rt.cpp', 'term.h', 'rt.map'): h.update(open(f'{E}/{f}', 'rb').read())
    return h.hexdigest()[:16]

def build(files, W, sym=True, nat=True):
    """compile the pass, the runtime and the harness files (symbolic and native), all from current sources"""
    cache = os.environ.get('NS_CACHE'); eh = engine_hash()
    def cached(name, make):
        if cache and os.path.exists(f'{cache}/{eh}-{name}'): shutil.copy(f'{cache}/{eh}-{name}', f'{W}/{name}'); return
        make()
        if cache: os.makedirs(cache, exist_ok=True); shutil.copy(f'{W}/{name}', f'{cache}/{eh}-{name}.tmp'); os.rename(f'{cache}/{eh}-{name}.tmp', f'{cache}/{eh}-{name}')
    def mkpass():
        flags = must(['llvm-config-18', '--cppflags']).split()
        cached('nspass.so', lambda: must(['clang++-18', '-std=c++17', '-O0', '-fPIC', '-shared', '-fno-rtti', *flags, f'{E}/nspass.cpp', '-o', f'{W}/nspass.so']))
    def mkrt():
        cached('libns.so', lambda: must(['clang++-18', '-std=c++17', '-O2', '-g1', '-w', '-fPIC', '-shared', '-fvisibility=hidden', f'-I{PYV}/include', f'{E}/rt.cpp', '-o', f'{W}/libns.so',
            f'-Wl,--version-script={E}/rt.map', '-Wl,-Bsymbolic', f'-L{PYV}/lib', '-lz3', '-lgmpxx', '-lgmp', '-lpthread', f'-Wl,-rpath,{PYV}/lib']))
    def inc(f):
        o = FILES.get(f, {}); pre = o.get('overlay'); r = []
        if pre:  # copy of the current headers with the named stubs put in place
            d = f'{W}/inc-{f}'; 
            if not os.path.isdir(d):
                shutil.copytree(REPO + '/include', d + '.tmp')
                for s in pre:   # the replaced header stays available under another name
                    t = s.split('__')[-1]; os.rename(f'{d}.tmp/{t}', f'{d}.tmp/real_{t}'); shutil.copy(f'{V}/harness/stubs/{s}', f'{d}.tmp/{t}')
                os.rename(d + '.tmp', d)
            r.append('-I' + d)
        return r + [f'-I{V}/harness/stubs/{x}' for x in o.get('stubdirs', [])] + [f'-I{E}', f'-I{V}/harness'] + ([] if pre else [f'-I{REPO}/include']) + [f'-I{REPO}', '-isystem', '/usr/include/eigen3']
    def symobj(f, I):
        o = FILES.get(f, {}); repo = f'{W}/inc-{f}/' if o.get('overlay') else REPO + '/'
        env = dict(os.environ, NS_REPO=repo, NS_MEM='1' if o.get('mem') else '0')
        out = must(['clang++-18', '-std=c++17', '-O1', '-gline-tables-only', '-fno-vectorize', '-fno-slp-vectorize', '-ffp-contract=off', '-DEIGEN_DONT_VECTORIZE', '-DNS_SYM=1', '-w',
              '-ftrivial-auto-var-init=pattern', f'-fpass-plugin={W}/nspass.so', *o.get('symflags', []), *I, '-c', f'{V}/harness/{f}.cpp', '-o', f'{W}/{f}.o'], env=env)
        if 'NSPASS-UNSUPPORTED' in out: print('note: ' + out.strip().splitlines()[0])
    def natbin(f, I):
        o = FILES.get(f, {})
        must(['clang++-18', '-std=c++17', '-g1', '-O0', '-w', '-fsanitize=address', *o.get('natflags', []), *I, f'{V}/harness/{f}.cpp', f'{E}/replay.cpp', *[f'{V}/harness/{x}' for x in o.get('natextra', [])], '-o', f'{W}/{f}.nat', *o.get('natlibs', [])])
    with cf.ThreadPoolExecutor(JOBS) as ex:
        incs = {f: inc(f) for f in files}
        fp, fr = ex.submit(mkpass), ex.submit(mkrt) if sym else None
        fn = [ex.submit(natbin, f, incs[f]) for f in files] if nat else []
        if sym:
            fp.result(); fo = [ex.submit(symobj, f, incs[f]) for f in files]
            for x in fo: x.result()
            fr.result()
            mainf = f'{E}/main.cpp'
            for f in files:
                ext = [f'{V}/harness/{x}' for x in FILES.get(f, {}).get('symextra', [])]
                must(['clang++-18', '-w', '-std=c++17', '-O1', f'-I{E}', f'{W}/{f}.o', mainf, *ext, '-o', f'{W}/{f}.sym', f'{W}/libns.so', f'-Wl,-rpath,{W}'])
        else: fp.result()
        for x in fn: x.result()

ASAN = 'detect_leaks=0:malloc_fill_byte=255:max_malloc_fill_size=4194304:detect_stack_use_after_return=0:abort_on_error=0:alloc_dealloc_mismatch=0'
def native(W, f, h, vecs, lim=20):
    """run the native build on input vectors; returns [(end, msg, obs)]"""
    if not vecs: return []
    env = dict(os.environ, ASAN_OPTIONS=ASAN, OMP_NUM_THREADS='1')
    out = []
    def chunk(vs):
        p = subprocess.run([f'{W}/{f}.nat', h, str(lim)], input='\n'.join(' '.join(v) for v in vs) + '\n', stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace', env=env)
        res, obs = [], []
        for l in p.stdout.splitlines():
            t = l.split('\t')
            if t[0] == 'OBS' and len(t) == 3: obs.append((t[1], float.fromhex(t[2]) if 'n' not in t[2] else float(t[2])))
            elif t[0] == 'END': res.append((t[1], t[2] if len(t) > 2 else '', obs)); obs = []
        while len(res) < len(vs): res.append(('crash', 'no result', []))
        return res
    n = max(1, min(JOBS, len(vecs))); parts = [vecs[i::n] for i in range(n)]
    with cf.ThreadPoolExecutor(n) as ex: rs = list(ex.map(chunk, parts))
    out = [None] * len(vecs)
    for i in range(n):
        for k, r in enumerate(rs[i]):
            if i + k * n < len(vecs): out[i + k * n] = r
    return out

def fl(s): return float.fromhex(s) if ('0x' in s) else float(s)
def named(ns, xs): return {f'{i}:{n}': fl(x) for i, (n, x) in enumerate(zip(ns, xs))}
def run_harness(W, f, h, tlim, opts):
    o = f'{W}/out-{f}-{h}'
    cmd = [f'{W}/{f}.sym', '--time', str(tlim), '--workers', str(opts.get('workers', JOBS)), '--samples', str(opts.get('samples', 6)), '--rlimit', str(opts.get('rlimit', 20000000)), '--nlms', str(opts.get('nlms', 10000)), '--out', o, h]
    t = time.time()
    try: r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=tlim * 2 + 60); rc, txt = r.returncode, r.stdout
    except subprocess.TimeoutExpired as e: rc, txt = -1, 'engine did not stop in time'; subprocess.run(['pkill', '-9', '-f', f'{W}/{f}.sym'])
    st, viol, paths, reach, checks, notes, fns = {}, {}, [], {}, {}, set(), set()
    for g in glob.glob(o + '.*'):
        for l in open(g, errors='replace'):
            try: d = json.loads(l)
            except ValueError: notes.add('truncated engine output'); continue
            if d['t'] == 'stats':
                for k, v in d.items():
                    if isinstance(v, (int, float)): st[k] = max(st.get(k, 0), v) if k in ('maxdepth', 'terms') else st.get(k, 0) + v
                for k, v in d['reach'].items(): reach[k] = reach.get(k, 0) + v
                for k, v in d['checks'].items(): checks[k] = checks.get(k, 0) + v
                notes.update(d['notes']); fns.update(d['fns'])
            elif d['t'] == 'viol': viol.setdefault(d['msg'], []).append(d)
            elif d['t'] == 'path': paths.append(d)
        os.remove(g)
    return dict(rc=rc, txt=txt, st=st, viol=viol, paths=paths, reach=reach, checks=checks, notes=notes, fns=fns, wall=time.time() - t)

def demangle(names):
    if not names: return []
    p = subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True)
    r = set()
    for l in p.stdout.splitlines():
        while True:
            m = re.sub(r'<[^<>]*>', '', l)
            if m == l: break
            l = m
        r.add(re.sub(r'\(.*', '', l).split(' ')[-1])
    return sorted(x for x in r if x and not x.startswith('std::'))

def known_findings():
    p = V + '/known_findings.json'
    return json.load(open(p)) if os.path.exists(p) else []

def check(pid, tier):
    sp = SPEC[pid]; runs = sp[tier] if tier in sp else sp['quick']; files = sorted({r[0] for r in runs})
    W = tempfile.mkdtemp(prefix='nsv-'); code = 0
    seed = int(os.environ.get('VERIF_SEED', '1'))
    try:
        try: build(files, W)
        except BuildError as e:
            print('cannot build the harness against the current tree:\n' + str(e)); return 2
        tb = time.time() - T0; known = [k for k in known_findings() if k['property'] == pid and k['status'] == 'known']
        tot = {}; rows = []; samples = []; validated = 0; mism = []; viols = []; unconf = []; allfns = set(); notes = set(); knownhit = {}
        for f, h, tlim, *rest in runs:
            opts = rest[0] if rest else {}
            R = run_harness(W, f, h, tlim, opts); st = R['st']
            for k, v in st.items(): tot[k] = tot.get(k, 0) + v if k not in ('maxdepth', 'terms') else max(tot.get(k, 0), v)
            allfns |= R['fns']; notes |= {f'{h}: {n}' for n in R['notes']}
            if R['rc']: notes.add(f'{h}: engine exit {R["rc"]} {R["txt"][-300:]}'); tot['incomplete'] = tot.get('incomplete', 0) + 1
            hv = []
            for msg, ds in R['viol'].items():   # replay the solver's counterexamples against the native build
                done = False; tried = 0
                for d in ds[:12]:
                    for c, r in zip(d['cands'], native(W, f, h, d['cands'], opts.get('replay_limit', 20))):
                        tried += 1
                        if r[0] in ('viol', 'crash', 'hang'):
                            hv.append(dict(msg=msg, native=r[0] + ': ' + r[1], names=d['names'], inputs=c, file=f, harness=h)); done = True; break
                    if done: break
                if not done: unconf.append(dict(harness=h, msg=msg, candidates=tried, inputs=[fl(x) for x in (ds[0]['cands'] or [[]])[0]]))
            for v in hv:
                kn = [k for k in known if k['harness'] == h and (k['message'] == v['msg'] or k['message'] in v['native'])]
                if kn: knownhit[kn[0]['id']] = (kn[0], v)
                else: viols.append(v)
            good = [p for p in R['paths'] if p['good']][:opts.get('maxsamples', 80)]
            for p, r in zip(good, native(W, f, h, [p['in'] for p in good], opts.get('replay_limit', 20))):
                if r[0] in ('crash', 'hang'):
                    v = dict(msg='native run of a solver-chosen path ends abnormally', native=r[0] + ': ' + r[1], names=p['names'], inputs=p['in'], file=f, harness=h)
                    if any(k['harness'] == h and k['message'] in v['native'] for k in known): continue
                    viols.append(v); continue
                ok = r[0] == 'ok' and len(r[2]) == len(p['obs']) and all(a[0] == b[0] and (abs(a[1] - fl(b[1])) <= 1e-6 * max(1, abs(a[1])) or a[1] == fl(b[1]) or (a[1] != a[1] and fl(b[1]) != fl(b[1]))) for a, b in zip(r[2], p['obs']))
                if ok: validated += 1
                else: mism.append(dict(harness=h, native=r[0] + ' ' + r[1], inputs=named(p['names'], p['in']), encoded=[(a, fl(b)) for a, b in p['obs']][:8], observed=r[2][:8]))
                if len(samples) < 12 and ok and len([s for s in samples if s['harness'] == h]) < 2:
                    samples.append(dict(harness=h, inputs=named(p['names'], p['in']), observed={a: fl(b) for a, b in p['obs'][:12]}))
            need = opts.get('reach', []); miss = [x for x in need if x not in R['reach']]
            if miss and not hv: notes.add(f'{h}: not reached: {miss}')
            complete = not st.get('incomplete') and not R['rc']
            rows.append(dict(harness=h, bound=opts.get('bound', ''), paths=int(st.get('paths', 0)), checked_paths=int(st.get('checked_paths', 0)), decisions=int(st.get('branches', 0)), exhaustive=bool(complete), undecided_checks=int(st.get('chk_unknown', 0)),
                 reached=R['reach'], assertions=R['checks'], wall_s=round(R['wall'], 2)))
            print(f'{h}: {int(st.get("paths", 0))} paths, {int(st.get("q_lin", 0) + st.get("q_nl", 0))} queries, {int(st.get("chk", 0))} assertions, {"exhaustive" if complete else "PARTIAL"}, {len(R["viol"])} violated, {R["wall"]:.1f}s' + (f', unreached {miss}' if miss else ''))
        os.makedirs(V + '/evidence', exist_ok=True)
        for g in glob.glob(f'{V}/evidence/replay_{pid}_*.json'): os.remove(g)
        out_v = []
        for i, v in enumerate(viols[:10]):
            p = f'{V}/evidence/replay_{pid}_{i}.json'; json.dump(v, open(p, 'w'), indent=1)
            print(f'  {v["harness"]}: {v["msg"]}  [native: {v["native"]}]  ' + ', '.join(f'{n}={fl(x):g}' for n, x in list(zip(v['names'], v['inputs']))[:40]))
            print(f'VIOLATION property={pid} replay={p}'); out_v.append(dict(replay=p, message=v['msg'], native=v['native'])); code = 1
        for k, v in knownhit.values(): print(f'KNOWN-FINDING: property={pid} {k["what"]}')
        for u in unconf[:5]: print('  unconfirmed (not reproduced natively): ' + json.dumps(u)[:600])
        for m in mism[:3]: print('  encoding/native difference: ' + json.dumps(m)[:900])
        for n in sorted(notes)[:12]: print('  note: ' + n)
        ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - T0, 2), violations=out_v,
            assumptions=sp.get('assumptions', []),
            coverage=dict(states=int(tot.get('paths', 0)), transitions=int(tot.get('branches', 0)), traces_validated_against_impl=validated, samples=samples or [dict(note='no sampled path')],
                queries=dict(linear=int(tot.get('q_lin', 0)), nonlinear=int(tot.get('q_nl', 0)), sat=int(tot.get('q_sat', 0)), unsat=int(tot.get('q_unsat', 0)), unknown=int(tot.get('unknown', 0))),
                solver_seconds=round(tot.get('t_lin', 0) + tot.get('t_nl', 0), 2),
                assertions=dict(total=int(tot.get('chk', 0)), by_solver=int(tot.get('chk_solver', 0)), by_normal_form_or_interval=int(tot.get('chk_norm', 0)), path_constant=int(tot.get('chk_conc', 0)), undecided=int(tot.get('chk_unknown', 0))),
                infeasible_paths=int(tot.get('pruned', 0)), unsupported_paths=int(tot.get('unsup', 0)), deepest_path=int(tot.get('maxdepth', 0)),
                exhaustive_within_bounds=all(r['exhaustive'] for r in rows), bounds=sp.get('bounds', ''), harnesses=rows, functions_encoded=demangle(sorted(allfns))[:200], build_s=round(tb, 2),
                encoding_native_differences=len(mism), difference_examples=mism[:3], unconfirmed_counterexamples=unconf[:5], notes=sorted(notes)[:40], known_findings=[k['id'] for k, _ in knownhit.values()]))
        json.dump(ev, open(f'{V}/evidence/{pid}.json', 'w'), indent=1)
        print(f'{pid} {tier}: {"VIOLATED" if code else "holds on everything explored"} ({int(tot.get("paths", 0))} paths, {validated} replayed natively, {time.time() - T0:.0f}s)')
        return code
    finally:
        if os.environ.get('NS_KEEP'): print('kept ' + W)
        else: shutil.rmtree(W, ignore_errors=True)

def replay(path):
    v = json.load(open(path)); W = tempfile.mkdtemp(prefix='nsv-')
    try:
        build([v['file']], W, sym=False); r = native(W, v['file'], v['harness'], [v['inputs']])[0]
        print(v['harness'], named(v['names'], v['inputs'])); print(r); return 1 if r[0] in ('viol', 'crash', 'hang') else 0
    finally: shutil.rmtree(W, ignore_errors=True)

if __name__ == '__main__':
    if sys.argv[1] == '--replay': sys.exit(replay(sys.argv[2]))
    sys.exit(check(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')))
