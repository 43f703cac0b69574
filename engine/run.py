"""Check driver: compile harness units against /repo, generate obligations, solve, replay."""
import sys, os, re, json, time, signal, subprocess, tempfile, shutil, hashlib, traceback, resource
import multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VF_REPO', '/repo')
sys.path.insert(0, HERE)
sys.setrecursionlimit(200000)

SAN = '-fsanitize=shift,signed-integer-overflow,integer-divide-by-zero,unreachable,return,array-bounds,bool,enum'

class Case:
    """one harness root with fixed case-split parameters"""
    def __init__(s, src, root, params=(), std='c++20', defs=(), replace=None, name=None, opts=None, bounded=None, tmo=None, split=False, tier='quick', what='', native=0):
        s.native = native
        s.src, s.root, s.params, s.std, s.defs = src, root, tuple(params), std, tuple(defs)
        s.replace = replace or {}
        s.opts = opts or {}
        s.bounded = bounded
        s.tmo = tmo
        s.split = split
        s.tier = tier
        s.what = what
        s.name = name or (root + (''.join('_%d' % p for p in params)) + ('' if std == 'c++20' else '@' + std) + ''.join('@' + d.lstrip('-D') for d in defs))
    def unit(s): return (s.src, s.std, s.defs)

def demangle(names):
    if not names: return {}
    p = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(names), stdout=subprocess.PIPE, text=True)
    out = p.stdout.split('\n')
    return dict(zip(names, out))

def compile_unit(unit, tmp):
    """harness + /repo headers -> mechanically extracted IR"""
    src, std, defs = unit
    tag = hashlib.sha1(repr(unit).encode()).hexdigest()[:12]
    ll = os.path.join(tmp, tag + '.ll')
    cmd = ['clang++-18', '-std=' + std, '-I' + REPO + '/include', '-I' + VERIF + '/harness', '-w', '-O0', '-Xclang', '-disable-O0-optnone', '-Xclang', '-disable-llvm-passes',
           SAN, '-fsanitize-trap=all', '-fno-rtti', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-DVF_SYMBOLIC'] + list(defs) + ['-S', '-emit-llvm', '-o', ll, os.path.join(VERIF, 'harness', src)]
    if '-DIPADDRESS_NO_EXCEPTIONS' in defs: cmd.insert(1, '-fno-exceptions')
    if std in ('c++11', 'c++14', 'c++17'): cmd.insert(1, '-D_GLIBCXX_ASSERTIONS')    # the only way to get the bodies of std::string members
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode: return None, 'compile: ' + p.stdout[:3000]
    roots = re.findall(r'^define (?:dso_local )?\S.*?@(p_\w+)\(', open(ll).read(), re.M)
    stubs = re.findall(r'^define [^\n]*@(vs_\w+|[\w$.]*vfstub[\w$.]*)\(', open(ll).read(), re.M)
    out = os.path.join(tmp, tag + '.o.ll')
    cmd = ['opt-18', '-S', '-passes=internalize,globaldce,function(sroa,simplifycfg,loop-simplify,lcssa)', '-internalize-public-api-list=' + ','.join(roots + stubs), ll, '-o', out]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode: return None, 'opt: ' + p.stdout[:3000]
    return out, None

def solve_case(args):
    case, ll, budget, mem = args[:4]
    if len(args) > 4: budget = min(budget, args[4] - time.time())
    r = dict(name=case.name, status='error', total=0, kinds={}, trivial=0, residual=0, solver='', solve_s=0.0, exec_s=0.0, fails=[], inputs=None, funcs=[], replaced=[], msg='', bounded=case.bounded, covers=0, loops=0, maxiter=0)
    t0 = time.time()
    if budget < 5:
        r['status'] = 'unknown'; r['fails'] = [['unknown', 'time budget of the check used up', case.root]]
        return r
    def alarm(*a): raise TimeoutError('time budget of the case used up')
    try:
        signal.signal(signal.SIGALRM, alarm); signal.alarm(int(budget) + 40)
        if mem: resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        import ir, term as T, exec as X, blast as B
        mod = ir.Module(open(ll).read())
        rep = {}
        if case.replace:
            dm = demangle([n[1:].strip('"') for n in mod.funcs])
            inv = {v: k for k, v in dm.items()}
            for pat, stub in case.replace.items():
                rx = re.compile(pat)
                tgt = [k for k, d in dm.items() if re.match(stub + r'\b|.*\b' + stub + r'\b', d) and 'vfstub' in d or k == stub]
                if not tgt: continue
                for k, d in dm.items():
                    if k not in tgt and rx.search(d): rep[k] = tgt[0]
        tm = dict(n=0, t=0.0)
        B_ = B
        shared = B.Blaster(); shared_abs = B.Blaster(True) if case.opts.get('absmul') else shared
        def feasible(pc):
            b = shared; l = b.blast(pc)[0]
            lits = [l] + [b.blast(a)[0] for a in e.axioms]
            res, _ = B_.run_sat(B_.dimacs(b, lits), 60, 'cadical')
            tm['n'] += 1
            return res != 'unsat'
        cfg = dict(case.opts); cfg['params'] = case.params
        e = X.Engine(mod, replace=rep, feasible=feasible, cfg=cfg)
        e.start(case.root)
        r['exec_s'] = round(time.time() - t0, 2)
        r['kinds'] = e.kinds; r['total'] = sum(e.kinds.values()); r['trivial'] = e.trivial; r['residual'] = len(e.obls)
        r['funcs'] = [n[1:].strip('"') for n in e.calls]
        r['replaced'] = list(e.replaced)
        r['loops'] = len(e.loopstats); r['maxiter'] = max(list(e.loopstats.values()) or [0])
        r['covers'] = len(e.covers)
        if r['kinds'].get('post', 0) + e.elsewhere == 0:
            r['status'] = 'failed'; r['fails'] = [['vacuity', 'no postcondition reached', case.root]]
            return r
        t1 = time.time()
        groups = [e.obls]
        if case.split:
            d = {}
            for o in e.obls: d.setdefault(o.kind + '|' + o.label if o.kind == 'post' else 'safety', []).append(o)
            groups = list(d.values())
        status = 'proved'
        for g in groups:
            v = T.FALSE
            for o in g: v = T.bor(v, o.viol)
            if T.isc(v) and v.a[0] == 0: continue
            b = shared_abs
            lits = [b.blast(v)[0]] + [b.blast(a)[0] for a in e.axioms]
            txt = B.dimacs(b, lits)
            left = max(5, budget - (time.time() - t0))
            res, mdl = B.run_sat(txt, left, case.opts.get('solver', 'kissat'))
            r['solver'] = case.opts.get('solver', 'kissat')
            if res == 'unsat': continue
            if res == 'unknown':
                status = 'unknown' if status == 'proved' else status
                r['fails'].append(['unknown', 'solver gave no answer in %ds' % left, ','.join(sorted({o.label for o in g if o.kind == 'post'}))[:300]])
                continue
            env = {n: sum(1 << i for i, x in enumerate(bb) if (x in mdl if x > 0 else -x not in mdl)) for n, bb in b.vars.items()}
            r['inputs'] = r['inputs'] or [env.get('in%d' % i, 0) for i in range(len(e.inputs))]
            status = 'failed'
            vals = T.evaluate([o.viol for o in g], env)
            for o, x in zip(g, vals):
                if x and len(r['fails']) < 8: r['fails'].append([o.kind, o.label, o.where])
        if status == 'proved':
            # vacuity: every cover must be reachable
            bylab = {}
            for lab, c in e.covers: bylab[lab] = T.bor(bylab.get(lab, T.FALSE), c)
            for lab, c in bylab.items():
                b = shared
                lits = [b.blast(c)[0]] + [b.blast(a)[0] for a in e.axioms]
                res, _ = B.run_sat(B.dimacs(b, lits), max(20, budget - (time.time() - t0)), 'cadical')
                if res != 'sat':
                    status = 'failed'; r['fails'].append(['vacuity', 'cover not reachable (%s): %s' % (res, lab), case.root])
        r['solve_s'] = round(time.time() - t1, 2)
        r['status'] = status
    except TimeoutError as ex:
        r['status'] = 'unknown'; r['fails'].append(['unknown', str(ex), case.root])
    except MemoryError:
        r['status'] = 'unknown'; r['fails'].append(['unknown', 'memory limit', case.root])
    except Exception as ex:
        r['status'] = 'unsupported'; r['msg'] = '%s: %s' % (type(ex).__name__, str(ex)[:300])
        if os.environ.get('VF_DEBUG'): traceback.print_exc()
        r['fails'].append(['unsupported', r['msg'], ''])
    return r

def _child(conn, a):
    try: r = solve_case(a)
    except BaseException as ex: r = dict(died='%s: %s' % (type(ex).__name__, str(ex)[:200]))
    conn.send(r); conn.close()
    os._exit(0)

def run_cases(work, jobs):
    """one process per case; a process that dies is reported, never waited for"""
    from multiprocessing.connection import wait
    ctx = mp.get_context('fork')
    todo = list(reversed(work)); run = {}
    try:
        while todo or run:
            while todo and len(run) < jobs:
                a = todo.pop(); rc, wc = ctx.Pipe(False)
                pr = ctx.Process(target=_child, args=(wc, a)); pr.start(); wc.close(); run[rc] = (pr, a)
            for c in wait(list(run)):
                pr, a = run.pop(c)
                try: r = c.recv()
                except (EOFError, OSError): r = dict(died='the process was ended')
                pr.join(); c.close()
                if 'died' in r:
                    r = dict(name=a[0].name, status='unknown', total=0, kinds={}, trivial=0, residual=0, solver='', solve_s=0.0, exec_s=0.0, fails=[['unknown', r['died'], a[0].root]], inputs=None, funcs=[], replaced=[], msg=r['died'], bounded=a[0].bounded, covers=0, loops=0, maxiter=0)
                yield r
    finally:
        if run: subprocess.run(['pkill', '-9', '-P', ','.join(str(pr.pid) for pr, a in run.values())], stderr=subprocess.DEVNULL)
        for pr, a in run.values(): pr.kill()

def native_build(case, tmp, asan=True):
    tag = hashlib.sha1(repr((case.unit(), case.root)).encode()).hexdigest()[:12] + ('a' if asan else 'u')
    exe = os.path.join(tmp, tag + '.exe')
    if os.path.exists(exe): return exe, ''
    cmd = ['clang++-18', '-std=' + case.std, '-g', '-O0', '-w', '-fsanitize=address,undefined' if asan else '-fsanitize=undefined', '-fno-sanitize-recover=all', '-fno-sanitize=vptr', '-I' + REPO + '/include', '-I' + VERIF + '/harness', '-DVF_NATIVE', '-DVF_ROOT=' + case.root, '-DVF_SRC="' + case.src + '"'] + list(case.defs)
    if '-DIPADDRESS_NO_EXCEPTIONS' in case.defs: cmd.append('-fno-exceptions')
    cmd += [os.path.join(VERIF, 'harness', 'vf_native.cpp'), '-o', exe + '.%d' % os.getpid()]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode: return None, p.stdout[:2000]
    os.rename(exe + '.%d' % os.getpid(), exe)
    return exe, ''

ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=4', UBSAN_OPTIONS='print_stacktrace=0:exitcode=5')

def native_replay(case, inputs, tmp):
    exe, log = native_build(case, tmp)
    if not exe: return False, 'native build failed: ' + log
    try:
        p = subprocess.run([exe, 'replay', ','.join(map(str, case.params)) or '-', ','.join(map(str, inputs)) or '-'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, env=ENV)
    except subprocess.TimeoutExpired:
        return True, 'does not terminate within 60 s'
    return p.returncode != 0, p.stdout.decode(errors='replace')[-2500:]

def native_search(case, secs, seed, tmp):
    exe, log = native_build(case, tmp, asan=(seed // 100) % 4 == 3)
    if not exe: return None, 'native build failed: ' + log
    rec = os.path.join(tmp, 'rec_%d_%s' % (seed, os.path.basename(exe)) + hashlib.sha1(case.name.encode()).hexdigest()[:6])
    try:
        p = subprocess.run([exe, 'search', ','.join(map(str, case.params)) or '-', str(secs), str(seed), rec], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=secs + 60, env=ENV)
        rc, out = p.returncode, p.stdout.decode(errors='replace')[-2500:]
    except subprocess.TimeoutExpired:
        rc, out = 99, 'does not terminate'
    if rc == 0: return None, out
    import struct
    d = open(rec, 'rb').read()
    n = min(struct.unpack_from('<Q', d)[0], 4096)
    inp = list(struct.unpack_from('<%dQ' % n, d, 8))
    if rc == 99:   # slow machine or real non-termination: only the replay of that one input decides
        ok, rout = native_replay(case, inp, tmp)
        if not ok: return None, 'search did not end in time; its last input passes'
        out += '; replay: ' + rout
    return inp, out

def _search(a): return native_search(*a)

def load_known():
    fn = os.path.join(VERIF, 'known-findings.txt')
    out = []
    if os.path.exists(fn):
        for L in open(fn):
            m = re.match(r'known: property=(\S+) case=(\S+) label=(.*?) :: (.*)$', L.strip())
            if m: out.append(m.groups())
    return out

def check(pid, cases, meta, tier='quick', seed=1, jobs=8, verbose=False):
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='vf_%s_' % pid); tempfile.tempdir = tmp
    try:
        return _check(pid, cases, meta, tier, seed, jobs, verbose, tmp, t0)
    finally:
        tempfile.tempdir = None; shutil.rmtree(tmp, ignore_errors=True)

def _check(pid, cases, meta, tier, seed, jobs, verbose, tmp, t0):
    cases = [c for c in cases if c.tier == 'quick' or tier == 'thorough']
    total_budget = 780 if tier == 'quick' else 6000
    units = sorted({c.unit() for c in cases if not c.native}, key=repr)
    ctx = mp.get_context('fork')
    with ctx.Pool(jobs) as pool:
        comp = dict(zip(units, pool.starmap(compile_unit, [(u, tmp) for u in units])))
    results = []
    work = []
    nat = [c for c in cases if c.native]
    for c in cases:
        if c.native: continue
        ll, err = comp[c.unit()]
        if ll is None:
            results.append(dict(name=c.name, status='unsupported', fails=[['compile', err, c.src]], inputs=None, total=0, kinds={}, trivial=0, residual=0, solve_s=0, exec_s=0, funcs=[], replaced=[], solver='', bounded=c.bounded, covers=0, loops=0, maxiter=0, msg=err))
        else:
            work.append((c, ll, c.tmo or (280 if tier == 'quick' else 1500), 4 << 30, t0 + (640 if tier == 'quick' else 6000)))
    bycase = {c.name: c for c in cases}
    confirmed = unconfirmed = None
    for r in run_cases(work, jobs):
        results.append(r)
        if verbose or r['status'] != 'proved':
            print('  [%s] %s: %d obligations, exec %.1fs solve %.1fs %s' % (r['status'], r['name'], r['total'], r['exec_s'], r['solve_s'], r['fails'][:3] if r['fails'] else ''), flush=True)
        if r['inputs'] is not None and r['status'] == 'failed' and not verbose:
            ok, out = native_replay(bycase[r['name']], r['inputs'], tmp); r['native'] = out
            if ok: confirmed = (r, r['inputs'], out); break
    if confirmed: nat = []
    if nat:   # bounded stand-ins on the real code: structured random search
        with ctx.Pool(jobs) as pool:
            pool.starmap(native_build, [(c, tmp, f) for c in nat for f in (False, True)])
            k = max(2, jobs // len(nat)); secs = {c.name: c.native * (1 if tier == 'quick' else 10) for c in nat}
            todo = [(c, secs[c.name], seed + 100 * i, tmp) for c in nat for i in (range(2, 2 + k))]
            for (c, sc, _, _), (inp, out) in zip(todo, pool.imap(_search, todo)):
                r = next((x for x in results if x['name'] == c.name), None)
                if r is None:
                    r = dict(name=c.name, status='proved', fails=[], inputs=None, total=0, kinds={}, trivial=0, residual=0, solve_s=0, exec_s=0, funcs=[], replaced=[], solver='', bounded=c.bounded, covers=0, loops=0, maxiter=0, msg='', tried=0); results.append(r)
                m = re.search(r'VF-NONE (\d+)', out or '')
                if m: r['tried'] += int(m.group(1))
                elif inp is not None: r['status'] = 'failed'; r['inputs'] = inp; r['fails'].append(['post', out.strip()[-200:], c.root])
                else: r['status'] = 'unsupported'; r['fails'].append(['native', (out or '')[:300], c.root])
            if verbose:
                for c in nat: print('  [native] ', c.name, [(x['status'], x.get('tried')) for x in results if x['name'] == c.name])
    bad = [r for r in results if r['status'] != 'proved']
    notes = []
    rdir = os.path.join(VERIF, 'replays'); os.makedirs(rdir, exist_ok=True)
    viol = 0
    if bad:
        # 1. replay solver models on the real code
        for r in bad:
            if confirmed: break
            if r['inputs'] is None or 'native' in r: continue
            ok, out = native_replay(bycase[r['name']], r['inputs'], tmp)
            r['native'] = out
            if ok: confirmed = (r, r['inputs'], out); break
        # 2. randomised search on the failing cases
        if confirmed is None:
            left = total_budget - (time.time() - t0)
            per = max(5, min(60, left * 0.8 * jobs / max(1, len(bad)) ))
            sel = bad[:64]
            bl = list({bycase[r['name']].unit() + (bycase[r['name']].root,): bycase[r['name']] for r in sel}.values())
            with ctx.Pool(jobs) as pool:
                pool.starmap(native_build, [(c, tmp, f) for c in bl for f in ((False, True) if len(sel) <= 2 else (False,))])
                n = max(1, jobs // len(sel))
                todo = [(bycase[r['name']], per if len(sel) <= jobs else max(3, min(per, 20)), seed + 100 * k, tmp) for r in sel for k in range(n)]
                for (c, _, _, _), (inp, out) in zip(todo, pool.imap(_search, todo)):
                    if inp is not None:
                        r = next(x for x in bad if x['name'] == c.name)
                        confirmed = (r, inp, out); break
                    notes.append((c.name, out))
                pool.terminate()
        viol = 1
        rp = os.path.join(rdir, pid + '.json')
        if confirmed:
            r, inp, out = confirmed
            c = bycase[r['name']]
            json.dump(dict(property=pid, confirmed=True, case=r['name'], src=c.src, root=c.root, std=c.std, defs=c.defs, params=c.params, inputs=inp, failed_obligations=r['fails'], native_output=out,
                           how_to_replay='python3 /verif/engine/replay.py ' + rp), open(rp, 'w'), indent=1)
            print('failed obligation: %s' % (r['fails'][:4],))
            print(out.strip()[-600:])
            print('VIOLATION property=%s replay=%s' % (pid, rp), flush=True)
        else:
            json.dump(dict(property=pid, confirmed=False, failed=[dict(case=r['name'], status=r['status'], failed_obligations=r['fails'], solver_model=r['inputs'], message=r.get('msg', ''), native=r.get('native', '')) for r in bad],
                           search=notes[:10]), open(rp, 'w'), indent=1)
            for r in bad[:3]: print('failed obligation: %s %s' % (r['name'], r['fails'][:3]))
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp), flush=True)
    proved = [r for r in results if r['status'] == 'proved']
    unb = [r for r in proved if not r['bounded']]
    allf = sorted({f for r in results for f in r['funcs']})
    dm = demangle(allf)
    fn = sorted({d for d in dm.values() if d.startswith('ipaddress::') or ' ipaddress::' in d or 'std::hash<ipaddress' in d})
    rep = demangle(sorted({f for r in results for f in r['replaced']}))
    kinds = {}
    for r in results:
        for k, v in r['kinds'].items(): kinds[k] = kinds.get(k, 0) + v
    import datetime
    ev = dict(property=pid, tier=tier, seed=seed, level=meta.get('level', 'proof'), wall_s=round(time.time() - t0, 1), violations=viol,
              assumptions=meta.get('assumptions', []),
              coverage=dict(obligations=sum(r['total'] for r in results if not r['bounded']), discharged=sum(r['total'] for r in unb),
                            obligations_by_kind=kinds,
                            discharged_by_simplifier=sum(r['trivial'] for r in unb),
                            discharged_by_sat=sum(r['residual'] for r in unb),
                            bounded_cases=[dict(case=r['name'], bound=r['bounded'], obligations=r['total'], status=r['status'], inputs_tried=r.get('tried', 0)) for r in results if r['bounded']],
                            back_ends=sorted({r['solver'] for r in results if r['solver']} | {'term rewriting'}),
                            solver_s=round(sum(r['solve_s'] for r in results), 1), vcgen_s=round(sum(r['exec_s'] for r in results), 1),
                            harness_cases=len(results), cases_proved=len(proved), max_loop_iterations=max([r['maxiter'] for r in results] or [0]),
                            functions_under_contract=fn, contracts_assumed_at_call_sites=sorted(set(rep.values())),
                            checker_cmd='python3 /verif/check.py %s' % pid, trusted_base=meta.get('trusted', []),
                            failed=[dict(case=r['name'], status=r['status'], obligations=r['fails']) for r in bad]))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d/%d cases proved, %d obligations, %d functions, %.1fs' % (pid, len(proved), len(results), ev['coverage']['obligations'], len(fn), time.time() - t0))
    return 1 if viol else 0
