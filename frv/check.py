"""One property: prove its obligations on /repo's current sources, run the native monitor, decide, write the evidence."""
import sys, os, time, json, tempfile, shutil, subprocess, importlib, multiprocessing as mp, threading, signal, re, traceback
sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
from . import build

def git_head(d):
    try: return subprocess.run(['git', '-C', d, 'rev-parse', 'HEAD'], capture_output=True, text=True).stdout.strip()
    except Exception: return ''

# ------------------------------------------------------------------ native monitor
class Monitor(threading.Thread):
    def __init__(s, prop, tmp, seed, secs):
        super().__init__(daemon=True); s.prop = prop; s.tmp = os.path.join(tmp, 'mon'); s.seed = seed; s.secs = secs; s.error = None; s.out = None; s.rc = None; s.wall = 0; s.case = None
        s.dict = os.path.join(tmp, 'dict.txt'); s.dict_ready = threading.Event()
    def src(s): return os.path.join(VERIF, 'mon', s.prop + '.cpp')
    def run(s):
        t0 = time.time()
        try: s._run()
        except Exception as e: s.error = f'{type(e).__name__}: {e}'
        s.wall = time.time() - t0
    def _run(s):
        os.makedirs(s.tmp)
        src = s.src(); text = open(src).read()
        opts = re.findall(r'^// *build: *(.*)$', text, re.M)
        extra = []; libs = []; only = None; san = ['-fsanitize=address,undefined', '-fno-sanitize=vptr,alignment', '-fno-sanitize-recover=all']
        for o in opts:
            for w in o.split():
                if w.startswith('src='): only = w[4:].split(',')
                elif w == 'nosan': san = []
                elif w == 'tsan': san = ['-fsanitize=thread']
                elif w.startswith('-l') or w.startswith('-Wl'): libs.append(w)
                else: extra.append(w)
        for d in ('src', 'include'): shutil.copytree(os.path.join(build.REPO, d), os.path.join(s.tmp, d))
        flags = ['-std=c++14', '-O1', '-g1', '-w'] + san + build.DEFS + extra + ['-I', 'include', '-I', os.path.join(VERIF, 'mon')]
        srcs = [os.path.join('src', f) for f in sorted(os.listdir(os.path.join(s.tmp, 'src'))) if f.endswith('.cpp') and (only is None or f[:-4] in only)]
        from concurrent.futures import ThreadPoolExecutor
        def one(f):
            o = os.path.basename(f)[:-4] + ('_m.o' if f == src else '.o')
            if os.path.basename(f) == 'Http.cpp': fl = [x for x in flags if x != '-O1'] + ['-O1']
            else: fl = flags
            build.run(['g++'] + fl + ['-c', f, '-o', o], s.tmp); return o
        with ThreadPoolExecutor(6) as p: objs = list(p.map(one, [src, os.path.join(VERIF, 'mon', 'main.cpp')] + srcs))
        build.run(['g++'] + san + objs + libs + ['-o', 'monitor', '-lmbedtls', '-lmbedx509', '-lmbedcrypto', '-lpthread'], s.tmp)
        s.dict_ready.wait(120)
        s.exec(s.secs)
    def exec(s, secs, seed=None):
        outf = os.path.join(s.tmp, f'out{seed or s.seed}.txt')
        if not os.path.exists(s.dict): open(s.dict, 'w').close()
        r = subprocess.run([os.path.join(s.tmp, 'monitor'), str(seed or s.seed), str(secs), outf, s.dict] + ([str(s.case)] if s.case is not None else []), capture_output=True, text=True, cwd=s.tmp, timeout=secs + 120)
        s.rc = r.returncode; s.out = open(outf).read() if os.path.exists(outf) else ''
        if s.rc not in (0, 1) or not s.out: s.error = f'monitor ended with {s.rc}: {r.stderr[-500:]}'
        return s.rc
    def stat(s, k):
        m = re.search(rf'^{k} (.*)$', s.out or '', re.M); return m.group(1) if m else None

def write_dict(mod, path):
    ns = set(); ss = set()
    for n, src in mod.fn_src.items():
        if not mod.norm[n].startswith(('fr::', 'void fr::')) and 'fr::' not in mod.norm[n][:40]: continue
        for l in src:
            for m in re.finditer(r'\bi(?:8|16|32|64) (-?\d+)', l): ns.add(int(m.group(1)))
            for m in re.finditer(r', (-?\d+)(?:,|$)', l): ns.add(int(m.group(1)))
    from .llir import unesc
    for n, src in mod.glob_src.items():
        m = re.search(r'constant \[\d+ x i8\] (c"[^"]*")', src)
        if m and n.startswith('.str'):
            b = unesc(m.group(1))[:-1]
            if 0 < len(b) < 40: ss.add(b)
    ss = sorted(ss)
    if len(ss) > 400: ss = [x for x in ss if not x.startswith((b'.', b'application', b'image', b'audio', b'video', b'text/', b'model'))][:400]
    with open(path + '.tmp', 'w') as f:
        for x in sorted(ns):
            if 3 < x < (1 << 31): f.write(f'n {x}\n')
        for x in ss: f.write(f's {x.hex()}\n')
    os.rename(path + '.tmp', path)

# ------------------------------------------------------------------ proofs
def job_child(mod, prop, idx, tier, conn):
    """verify and discharge one job in its own process"""
    import z3
    from . import contract, exec as ex_, solve
    out = {'name': '?', 'error': None, 'obs': []}
    try:
        P = importlib.import_module('frv.props.' + prop)
        mul = 3 if tier == 'thorough' else 1
        if idx == 'lemmas':
            out['name'] = 'lemmas'; out['fn'] = None
            t0 = time.time()
            for n, p, g in P.lemmas():
                t1 = time.time(); ok, by = solve.prove(p, g, 5000, (15*mul, 30*mul))
                # a lemma must not hold because its hypotheses are contradictory
                vac = solve.inproc(solve.closure(p, z3.BoolVal(False)), z3.BoolVal(False), 1500)[0] == 'unsat' if p else False
                out['obs'].append(dict(name='lemma: ' + n, kind='lemma', status='proved' if ok and not vac else 'vacuous' if vac else ('sat' if by == 'sat' else 'unknown'), by=by if ok else None, secs=time.time()-t1, tainted=False, detail=''))
            out.update(paths=0, models={}, contracts={}, inlined={}, log=[], secs=time.time()-t0, stats=solve.STATS)
        else:
            job = P.jobs()[idx]; out['name'] = job.name
            ex = ex_.Ex(mod); ex.run_ctors()
            job.secs *= mul
            R = contract.verify(job, ex)
            t0 = time.time()
            solve.discharge(R.obs, 3, (6*mul, 20*mul), budget=100*mul)
            canary = None
            if R.error is None and R.obs:
                # the hypotheses of some complete path must not be contradictory
                for o in reversed(R.obs):
                    if o.kind in ('postcondition',):
                        canary = solve.inproc(solve.closure(o.path, z3.BoolVal(False)), z3.BoolVal(False), 1500)[0]
                        if canary != 'unsat': break
                if canary == 'unsat': R.error = 'every path to a postcondition has contradictory hypotheses'
            for o in R.obs:
                d = ''
                if o.status == 'sat' or o.status == 'unknown':
                    d = 'goal: ' + str(o.goal)[:1500] + '\nlast path conditions:\n' + '\n'.join('  ' + str(p).replace('\n', ' ')[:300] for p in o.path[-12:])
                    if o.status == 'sat':
                        r, m = solve.inproc(solve.closure(o.path, o.goal), o.goal, 3000)
                        if m is not None: d += '\nmodel: ' + str(m)[:2000]
                out['obs'].append(dict(name=o.name, kind=o.kind, status=o.status, by=o.by, secs=o.secs, tainted=o.tainted, detail=d))
            out.update(error=R.error, fn=R.fn, paths=R.paths, models=R.models, contracts=R.contracts, inlined=R.inlined, log=R.log, secs=R.secs + time.time()-t0, stats=solve.STATS, nfeas=ex.nfeas, tfeas=ex.tfeas)
    except BaseException as e:
        out['error'] = f'{type(e).__name__}: {e} ' + traceback.format_exc()[-600:]
    conn.send(out); conn.close()

def prove_all(mod, prop, tier, limit, par=7, mon=None):
    P = importlib.import_module('frv.props.' + prop)
    js = P.jobs(); ids = list(range(len(js))) + (['lemmas'] if hasattr(P, 'lemmas') else [])
    ctx = mp.get_context('fork'); running = {}; res = {}; todo = list(ids); t0 = time.time()
    order = sorted(todo, key=lambda i: -(js[i].secs if i != 'lemmas' else 0))
    todo = order
    while todo or running:
        if mon is not None and mon.rc == 1: limit = min(limit, max(time.time() - t0 + 60, 180)); mon = None     # a failing input is known: the failed obligations are reported as far as they are known soon
        while todo and len(running) < par:
            i = todo.pop(0); a, b = ctx.Pipe(False)
            p = ctx.Process(target=job_child, args=(mod, prop, i, tier, b)); p.start(); b.close(); running[i] = (p, a, time.time())
        for i in list(running):
            p, a, ts = running[i]
            if a.poll(0.02):
                try: res[i] = a.recv()
                except EOFError: res[i] = dict(name=js[i].name if i != 'lemmas' else i, error='verifier process died', obs=[])
                p.join(); del running[i]
            elif not p.is_alive() and not a.poll(0.1):
                res[i] = dict(name=js[i].name if i != 'lemmas' else i, error='verifier process died', obs=[]); del running[i]
            elif time.time() - t0 > limit:
                kill_tree(p.pid); p.join(); res[i] = dict(name=js[i].name if i != 'lemmas' else i, error='time limit of the proof', obs=[]); del running[i]
    return [res[i] for i in ids]
def kill_tree(pid):
    try:
        for c in open(f'/proc/{pid}/task/{pid}/children').read().split(): kill_tree(int(c))
    except OSError: pass
    try: os.kill(pid, signal.SIGKILL)
    except OSError: pass

TRUSTED = ['clang 18 front end: LLVM IR at -O0 stands for the C++ source', 'frv: IR reader, executor, contract application and loop rule (frv/llir.py, exec.py, contract.py, inv.py, solve.py)', 'z3 and cvc5',
  'models of the standard library, runtime and system calls (frv/lib.py, frv/net.py), listed under assumed_contracts', 'allocation does not fail; no object is larger than 2^47 bytes', 'single-threaded execution of the functions verified']

def main(argv):
    prop = argv[0]; tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if '--thorough' in argv: tier = 'thorough'
    t0 = time.time()
    P = importlib.import_module('frv.props.' + prop)
    tmp = tempfile.mkdtemp(prefix='frv-')
    ev_dir = os.path.join(VERIF, 'evidence'); os.makedirs(ev_dir, exist_ok=True)
    rep = os.path.join(ev_dir, f'{prop}.replay.txt')
    if os.path.exists(rep): os.unlink(rep)
    try: return _main(prop, P, tier, seed, tmp, t0, ev_dir, rep)
    finally: shutil.rmtree(tmp, ignore_errors=True)

def known_findings(prop):
    out = []
    try:
        for l in open(os.path.join(VERIF, 'KNOWN_FINDINGS.txt')):
            if l.startswith(f'finding: property={prop} '): out.append(l[len('finding: '):].strip())
    except OSError: pass
    return out

def _main(prop, P, tier, seed, tmp, t0, ev_dir, rep):
    secs = getattr(P, 'MONITOR_SECS', 15) * (6 if tier == 'thorough' else 1)
    mon = Monitor(prop, tmp, seed, secs)
    have_mon = os.path.exists(mon.src())
    if have_mon: mon.start()
    builderr = None; results = []
    tb = time.time()
    try:
        irdir = os.path.join(tmp, 'ir'); os.makedirs(irdir)
        ll = build.ir(irdir)
        from .llir import Module
        mod = Module(ll)
        write_dict(mod, mon.dict)
    except build.BuildError as e: builderr = str(e)
    mon.dict_ready.set()
    tb = time.time() - tb
    if builderr is None:
        results = prove_all(mod, prop, tier, 420 if tier == 'quick' else 780, mon=mon if have_mon else None)
    if have_mon: mon.join()
    # ---------------------------------------------------------- verdict
    obs = [dict(o, job=r['name']) for r in results for o in r['obs']]
    failed = [o for o in obs if o['status'] != 'proved']
    errors = [(r['name'], r['error']) for r in results if r.get('error')]
    if builderr: errors.append(('build', builderr))
    native_fail = have_mon and mon.rc == 1
    refuted = [o for o in failed if o['status'] == 'sat']
    if failed and have_mon and not native_fail and mon.error is None:
        # an obligation failed: search longer for an input that shows it on the real code
        for k in range(1, 3):
            if time.time() - t0 > 500: break
            if mon.exec(min(60, secs*2), seed + 1000*k) == 1: native_fail = True; break
    verdict = 0; lines = []
    body = []
    if native_fail:
        verdict = 1
        body.append('A failing input on the real code (monitor built from /repo with sanitizers):\n' + mon.out)
        body.append(f'replay: build the monitor (python3-vt -m frv.replay {prop} {mon.stat("seed")} {(mon.stat("failed") or "case 0").split()[-1]}) from /verif')
        lines.append(f'VIOLATION property={prop} replay={rep}')
    elif refuted:
        verdict = 1
        lines.append(f'VIOLATION property={prop} replay={rep} no-failing-input-found')
    if verdict:
        if failed: body.append('Failed obligations:')
        for o in failed[:40]: body.append(f'- [{o["status"]}] {o["name"]} ({o["kind"]}; {"after a loop abstraction" if o["tainted"] else "exact path"})\n{o["detail"]}')
        for n, e in errors: body.append(f'- function not verified: {n}: {e}')
        if not failed and not errors: body.append('All proof obligations were discharged; the failing input above contradicts an assumption of the proof.')
        with open(rep, 'w') as f: f.write(f'property {prop}\n' + '\n'.join(body) + '\n')
    for k in known_findings(prop): lines.insert(0, 'KNOWN-FINDING: ' + k)
    bounded = []
    for n, e in errors: bounded.append(f'{n}: {e}'[:400])
    for o in failed:
        if o['status'] != 'sat': bounded.append(f'{o["name"]}: not decided by the solvers')
    fns = []
    for r in results:
        if r['name'] == 'lemmas': continue
        n = len(r['obs']); d = sum(o['status'] == 'proved' for o in r['obs'])
        kinds = {}
        for o in r['obs']: kinds[o['kind']] = kinds.get(o['kind'], 0) + 1
        fns.append(dict(job=r['name'], function=r.get('fn'), obligations=n, discharged=d, by_kind=kinds, paths=r.get('paths'), seconds=round(r.get('secs') or 0, 2), not_verified=(r['error'] or '')[:300] or None))
    models = sorted({m for r in results for m in (r.get('models') or {})})
    contracts = sorted({m for r in results for m in (r.get('contracts') or {})})
    inl = sorted({m for r in results for m in (r.get('inlined') or {})})
    backend = {}
    for r in results:
        for k, (n, t) in (r.get('stats') or {}).items():
            b = backend.setdefault(k, [0, 0.0]); b[0] += n; b[1] += t
    nob = len(obs); nd = sum(o['status'] == 'proved' for o in obs)
    complete = not errors and nd == nob and nob > 0
    cov = dict(obligations=nob, discharged=nd, checker_cmd=f'python3-vt -m frv.check {prop}', trusted_base=TRUSTED + list(getattr(P, 'ASSUMES', [])),
      functions_under_contract=fns, lemmas=[dict(name=o['name'], status=o['status'], by=o['by']) for o in obs if o['kind'] == 'lemma'],
      back_ends={k: dict(queries=n, seconds=round(t, 2)) for k, (n, t) in backend.items()},
      path_feasibility=dict(queries=sum(r.get('nfeas') or 0 for r in results), seconds=round(sum(r.get('tfeas') or 0 for r in results), 2)),
      assumed_contracts=models, callee_contracts_used=contracts, bodies_executed_in_place=inl, bounded_instead_of_proved=bounded, scope=getattr(P, 'SCOPE', ''), dropped_invariant_candidates=sum(len(r.get('log') or []) for r in results))
    if have_mon:
        cov['native_monitor'] = dict(cases=int(mon.stat('cases') or 0), seconds=round(mon.wall, 1), error=mon.error, result=mon.rc, coverage={m.group(1): int(m.group(2)) for m in re.finditer(r'^cover (\S+) (\d+)$', mon.out or '', re.M)},
           bound=f'{secs} s of generated cases on the code built with address and undefined-behaviour sanitizers; evidence for the bounded parts and source of failing inputs, not counted as proof')
    level = 'proof' if not getattr(P, 'LEVEL', None) else P.LEVEL
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(time.time()-t0, 2))
    ev['verdict'] = 'violated' if verdict else ('all obligations discharged' if complete else 'held; some functions only checked within bounds')
    ev['repo_head'] = git_head(build.REPO)
    with open(os.path.join(ev_dir, prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    for l in lines: print(l)
    print(f'{prop}: {nd}/{nob} obligations discharged over {len(fns)} functions; {len(errors)} not verified; monitor {"none" if not have_mon else mon.error or (str(mon.stat("cases")) + " cases")}; {time.time()-t0:.1f}s')
    for n, e in errors: print('  not verified:', n, (e or '')[:600 if os.environ.get('FRV_DEBUG') else 160].replace('\n', ' '))
    if verdict == 0:
        for o in failed[:20]: print('  undecided:', o['name'])
    else:
        for b in body[:1]: print(b[:1500])
        for o in failed[:10]: print('  failed obligation:', o['status'], o['name'])
    return verdict
if __name__ == '__main__': sys.exit(main(sys.argv[1:]))
