"""Runs one check: builds the IR of /repo's current tree, discharges every obligation of the property's contracts,
replays on the real code, decides, and rewrites the evidence file."""
import importlib, json, multiprocessing as mp, os, re, signal, subprocess, sys, time, traceback, threading
from . import build
from .engine import Engine, Module, Unsupported, Undecided, PathEnd, Obligation

VERIF = build.VERIF
class Deadline(Exception): pass

def _alarm(*a): raise Deadline()

_G = {}
def _task(k):
    spec, mods, tier, tmo = _G['spec'], _G['mods'], _G['tier'], _G['tmo']
    name, modname, fn = _G['tasks'][k]
    t0 = time.time()
    r = dict(task=name, obls=[], err=None, executed=[], modelled=[], contracted=[], qtime=0.0, nq=0, smt=[])
    e = None
    try:
        signal.signal(signal.SIGALRM, _alarm); signal.alarm(tmo)
        e = Engine(mods[modname], tier=tier) if modname else Engine(next(iter(mods.values())), tier=tier)
        if hasattr(spec, 'configure'): spec.configure(e)
        fn(e)
    except Unsupported as x: r['err'] = ('unsupported', str(x)[:1500])
    except (Undecided, Deadline) as x: r['err'] = ('undecided', (str(x) or 'time limit')[:600])
    except RecursionError as x: r['err'] = ('unsupported', 'recursion limit')
    except PathEnd: r['err'] = ('unsupported', 'path end outside exploration')
    except Exception as x: r['err'] = ('unsupported', 'verifier: ' + ''.join(traceback.format_exception(x))[-1500:])
    finally: signal.alarm(0)
    if e is not None:
        for o in e.obls:
            m = None
            if o.model is not None:
                try: m = str(o.model)[:3000]
                except Exception: m = '?'
            r['obls'].append((o.name, o.status, o.where, round(o.t, 4), o.backend, m, o.detail))
        r.update(executed=sorted(e.executed), modelled=sorted(e.modelled), contracted=sorted(e.contracted), qtime=e.qtime, nq=e.nq, smt=e.smt_dump[:40])
    r['wall'] = time.time() - t0
    return r

def cvc5_cross(smt, limit=200, tmo=30):
    import concurrent.futures as cf
    def one(x):
        n, s = x
        try:
            p = subprocess.run(['cvc5', '--lang=smt2', f'--tlimit={tmo*1000}', '-'], input=s, capture_output=True, text=True, timeout=tmo + 20)
            return p.stdout.strip().split('\n')[0][:20] if p.stdout.strip() else 'error'
        except Exception: return 'timeout'
    with cf.ThreadPoolExecutor(8) as ex: res = list(ex.map(one, smt[:limit]))
    return dict(submitted=len(res), unsat=res.count('unsat'), sat=res.count('sat'), other=len(res) - res.count('unsat') - res.count('sat'))

def known():
    out = {}
    p = f'{VERIF}/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l.strip())
            if m: out.setdefault(m[1], {})[m[2]] = m[3]
    return out

def run_driver(d, pid, seed, tier, out):
    """native driver on the real code: contract checks at run time / replay"""
    t = time.time(); r = dict(status='none', fails=[], stat={}, output='', cmd='')
    try:
        exe = build.native(d['name'], f"{VERIF}/{d['src']}", lib=d.get('lib', True), flags=d.get('flags', ()), link=d.get('link', ()))
        r['build_s'] = round(time.time() - t, 1)
        cmd = [exe, pid, str(seed), tier]; r['cmd'] = ' '.join(cmd)
        lim = d.get('timeout', 400 if tier == 'quick' else 3000)
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=66:detect_stack_use_after_return=0:new_delete_type_mismatch=0', UBSAN_OPTIONS='halt_on_error=1:abort_on_error=1:print_stacktrace=1')
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=lim, env=env)
            txt = p.stdout.decode('utf8', 'replace'); rc = p.returncode
        except subprocess.TimeoutExpired as x:
            txt = (x.stdout or b'').decode('utf8', 'replace'); rc = 'timeout'
        r['output'] = txt[-8000:] if len(txt) > 16000 else txt
        for l in txt.split('\n'):
            m = re.match(r'FAIL key=(\S+) (.*)', l)
            if m: r['fails'].append((m[1], m[2]))
            m = re.match(r'STAT (.*)', l)
            if m:
                for kv in m[1].split():
                    a, _, b = kv.partition('='); r['stat'][a] = r['stat'].get(a, 0) + int(b) if b.isdigit() else b
            m = re.match(r'SAMPLE (.*)', l)
            if m: r['stat'].setdefault('samples', []).append(m[1])
        if rc == 'timeout':
            r['status'] = 'timeout'
            m = re.findall(r'^CASE (.*)$', txt, re.M)
            if d.get('hang_is_failure', True): r['fails'].append(('hang', 'does not terminate within %ds, last case: %s' % (lim, m[-1] if m else '?')))
        elif rc != 0 and not r['fails']:
            m = re.findall(r'^CASE (.*)$', txt, re.M)
            first = next((l for l in txt.split('\n') if 'ERROR: AddressSanitizer' in l or 'runtime error' in l or 'terminate called' in l), f'exit status {rc}')
            r['fails'].append(('crash', f'{first.strip()[:200]} at case: {m[-1] if m else "?"}')); r['status'] = 'crash'
        else: r['status'] = 'ok' if rc == 0 else 'fail'
    except build.BuildError as x:
        r['status'] = 'build-error'; r['output'] = str(x)
    except Exception as x:
        r['status'] = 'error'; r['output'] = traceback.format_exc()
    r['wall'] = round(time.time() - t, 1)
    out.update(r)

def main(pid):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if tier not in ('quick', 'thorough'): tier = 'quick'
    spec = importlib.import_module('props.' + pid.lower())
    sys.setrecursionlimit(20000)
    drv = {}; th = None
    D = getattr(spec, 'DRIVER', None)
    # 1. IR of the current tree
    mods = {}; build_err = None
    build.gen_headers()
    if D:
        th = threading.Thread(target=run_driver, args=(D, pid, seed, tier, drv))
    try:
        for mname, kw in spec.MODULES.items():
            j = build.module(mname, [f"{VERIF}/{x}" if x.startswith('spec/') else f'{build.REPO}/{x}' for x in kw['srcs']], kw['roots'])
            mods[mname] = Module(j)
    except (build.BuildError, Unsupported) as x: build_err = str(x)
    results = []
    if mods and build_err is None:
        try: tasks = spec.tasks(mods)
        except Unsupported as x: tasks = []; build_err = 'contract lookup: ' + str(x)
        except Exception as x: tasks = []; build_err = 'contract lookup: ' + traceback.format_exc()[-800:]
        if len(tasks):
            _G.update(spec=spec, mods=mods, tier=tier, tasks=tasks, tmo=getattr(spec, 'TASK_TMO', 420) if tier == 'quick' else 3000)
            ctx = mp.get_context('fork')
            pool = ctx.Pool(min(8, max(1, len(tasks))), maxtasksperchild=1)
            ar = pool.map_async(_task, range(len(tasks)), chunksize=1)
            if th: th.start()
            results = ar.get(); pool.close(); pool.join()
    if th:
        if not th.ident: th.start()
        th.join()
    # 2. collect
    obls = [(r['task'],) + tuple(o) for r in results for o in r['obls']]
    counted = [o for o in obls if not o[1].startswith('cover:')]
    covers = [o for o in obls if o[1].startswith('cover:')]
    proved = [o for o in counted if o[2] == 'proved']
    refuted = [o for o in counted if o[2] == 'refuted']
    undec = [o for o in counted if o[2] not in ('proved', 'refuted')]
    vac = [o for o in covers if o[2] == 'vacuous']
    errs = [(r['task'],) + r['err'] for r in results if r['err']]
    cross = None
    if tier == 'thorough':
        smt = [x for r in results for x in r['smt']]
        cross = cvc5_cross(smt)
        if cross['sat']: undec.append(('cvc5', 'cross-check', 'unknown', '', 0, 'cvc5', None, 'cvc5 answers sat'))
    KN = known().get(pid, {})
    findings = []; newfails = []
    for k, d in drv.get('fails', []):
        (findings if k in KN else newfails).append((k, d))
    ref2 = []
    for o in refuted:
        key = 'obligation:' + re.sub(r'\s+', '_', o[1])
        if key in KN: findings.append((key, o[1]))
        else: ref2.append(o)
    for k in sorted({k for k, d in findings}): print(f'KNOWN-FINDING: property={pid} {KN[k]}')
    complete = bool(counted) and not undec and not vac and not errs and build_err is None
    # 3. verdict
    rc = 0; line = None
    os.makedirs(f'{VERIF}/replays', exist_ok=True)
    if newfails or ref2:
        rep = f'{VERIF}/replays/{pid}.txt'
        with open(rep, 'w') as f:
            f.write(f'property {pid}: violation on the current tree of {build.REPO}\n\n')
            for o in ref2[:20]:
                f.write(f'FAILED OBLIGATION {o[1]}\n  contract/task: {o[0]}\n  at: {o[3]}\n  back end: {o[5]} answered sat (counterexample below)\n  counterexample: {o[6]}\n\n')
            for k, d in newfails[:20]: f.write(f'FAILING INPUT (real code) [{k}] {d}\n')
            if drv: f.write(f"\nreplay: {drv.get('cmd')}   (rebuild: python3-vt /verif/check.py {pid})\n\ndriver output:\n{drv.get('output','')[-6000:]}\n")
            for x in errs: f.write(f'\nnot decided: {x}')
        line = f'VIOLATION property={pid} replay={rep}' + ('' if newfails else ' no-failing-input-found'); rc = 1
        for o in ref2[:6]: print(f'failed obligation: {o[1]} [{o[3]}]')
        for k, d in newfails[:6]: print(f'failing input: {k}: {d[:300]}')
    elif not complete:
        for x in errs[:6]: print('undecided (bounded stand-in decides):', x[0], x[1], x[2][:400])
        for o in (undec + vac)[:6]: print('undecided obligation (bounded stand-in decides):', o[1], o[2], o[3])
        if build_err: print('undecided (verified text could not be built):', build_err[:800])
        if D is None or drv.get('status') != 'ok':
            print('no decision:', drv.get('status'), drv.get('output', '')[-1500:]); rc = 2
    if D is not None and drv.get('status') in ('build-error', 'error') and rc == 0:
        print('driver unavailable:', drv['output'][-1500:])
        if not complete: rc = 2
    if rc == 0 and not counted and not drv.get('stat'): rc = 2
    # 4. evidence
    level = getattr(spec, 'LEVEL', 'proof')
    cov = dict(obligations=len(counted), discharged=len(proved),
               checker_cmd=f'python3-vt {VERIF}/check.py {pid}',
               trusted_base=['clang 18 front end and the opt passes ' + build.OPT, 'tools/irdump (IR export)', 'vc/engine.py (symbolic execution of LLVM IR, VC generation)', 'z3 (python module) as back end'] + getattr(spec, 'TRUSTED', []),
               back_end_obligations={b: sum(1 for o in proved if o[5] == b) for b in sorted({o[5] for o in proved})},
               solver_time_s=round(sum(r['qtime'] for r in results), 2), solver_queries=sum(r['nq'] for r in results),
               functions_under_contract=[t[0] for t in (_G.get('tasks') or [])],
               functions_executed_in_place=sorted({x[:200] for r in results for x in r['executed']})[:400],
               callees_replaced_by_verified_contract=sorted({x[:200] for r in results for x in r['contracted']}),
               assumed_contracts_external=sorted({x for r in results for x in r['modelled']})[:200],
               vacuity_covers=len(covers), vacuous=[o[1] for o in vac],
               undecided=[list(x)[:3] for x in errs] + [[o[1], o[2], o[3]] for o in undec][:20] + ([['build', build_err[:300]]] if build_err else []),
               proof_complete=complete,
               tasks=[dict(task=r['task'], obligations=len(r['obls']), wall_s=round(r['wall'], 2), solver_s=round(r['qtime'], 2)) for r in results],
               samples=[f'{o[1]} @ {o[3]}' for o in counted[:3]])
    if drv: cov['bounded_runtime_check'] = dict(label='bounded (never counted as proved): contracts and independent oracles executed on the real code', status=drv.get('status'), cmd=drv.get('cmd'), stat=drv.get('stat'), wall_s=drv.get('wall'), build_s=drv.get('build_s'))
    if drv.get('stat', {}).get('evaluations'):
        cov['evaluations'] = int(drv['stat']['evaluations'])
    if cross: cov['cvc5_cross_check'] = cross
    if findings: cov['known_findings'] = [list(x) for x in findings]
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=list(getattr(spec, 'ASSUME', [])), wall_s=round(time.time() - t0, 2), violations=len(newfails) + len(ref2))
    os.makedirs(f'{VERIF}/evidence', exist_ok=True)
    json.dump(ev, open(f'{VERIF}/evidence/{pid}.json', 'w'), indent=1)
    print(f'{pid}: {len(proved)}/{len(counted)} obligations discharged, {len(refuted)} refuted, {len(undec) + len(errs)} undecided, driver {drv.get("status", "-")} {drv.get("stat", {}).get("evaluations", "")}, {ev["wall_s"]} s')
    if line: print(line)
    return rc
