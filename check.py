"""check.py PROP [--tier quick|thorough]: decide one property on /repo's current tree."""
import sys, os, json, time, argparse, importlib, subprocess, multiprocessing as mp, traceback, tempfile, pickle, shutil, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE); sys.dont_write_bytecode = True
REPO = os.environ.get('HAPUA_REPO', '/repo')
VENV = '/opt/venv/bin/python'

def cenv():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', PYTHONWARNINGS='ignore',
             PYTHONPATH=REPO, HAPUA_REPO=REPO, MPLCONFIGDIR=SCRATCH, PYTHONHASHSEED='0')
    return e

def start_search(prop, seed, budget, extra=None):
    fd, out = tempfile.mkstemp(dir=SCRATCH); os.close(fd); os.unlink(out)
    env = cenv()
    if extra: env['HAPUA_EXTRA_INPUTS'] = extra
    p = subprocess.Popen([VENV, os.path.join(HERE, 'concrete.py'), prop, '--seed', str(seed), '--budget', str(budget), '--out', out],
                         env=env, cwd=SCRATCH, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    p.outfile = out; return p
def end_search(p, timeout):
    try: o, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill(); o, _ = p.communicate()
        return {'error': 'concrete evaluation timed out', 'evaluations': 0, 'distinct_nontrivial': 0, 'samples': [], 'violations': [], 'known': {}, 'rule': ''}
    if not os.path.exists(p.outfile):
        return {'error': 'concrete evaluation failed: ' + o[-1500:], 'evaluations': 0, 'distinct_nontrivial': 0, 'samples': [], 'violations': [], 'known': {}, 'rule': ''}
    return json.load(open(p.outfile))

# ---------------------------------------------------------------- proofs
def gen_proof(prop, k, small, tlimit):
    from pyvc import engine as E
    from pyvc.spec import P
    mod = importlib.import_module('props.' + prop)
    name, fn, opts = mod.PROOFS[k]
    opts = dict(opts); opts.pop('small', None); setup = opts.pop('setup', None); asserts = opts.pop('asserts', False)
    eng = E.Engine(repo=os.path.join(REPO, 'hapuamod'), deadline=time.time() + tlimit, **opts)
    if asserts: eng.may_raise = False
    if setup: setup(eng)
    info = {'posts': 0, 'ends': 0}
    def start():
        p = P(eng, small); eng.P = p
        fn(p)
        info['posts'] += getattr(p, 'nposts', 0); info['ends'] += 1
        eng.pathends.append(eng.snapfacts())
    eng.pathends = []
    eng.onrestart = lambda: (eng.pathends.clear(), info.update(posts=0, ends=0))
    eng.explore(start)
    return eng, info

def discharge_slice(eng, idxs, timeout, q, deadline):
    from pyvc import solver
    for i in idxs:
        o = eng.obls[i]; t0 = time.time()
        try:
            if time.time() > deadline: r = solver.Result('unknown', reason='deadline')
            else: r = solver.prove(o.facts, o.goal, timeout, o.extra, using=o.using)
        except Exception as e: r = solver.Result('unknown', reason='solver error %r' % e)
        q.put((i, r.status, r.solver, time.time()-t0, r.reason, str(r.model)[:1500] if r.model is not None else ''))
    q.put(None)

def prove_worker(prop, k, small, tlimit, otimeout, nproc, deadline, outq):
    res = {'k': k, 'small': bool(small)}
    try:
        from pyvc.sc import OutOfSubset
        t0 = time.time()
        try: eng, info = gen_proof(prop, k, small, tlimit)
        except OutOfSubset as e:
            res.update(status='out_of_subset', reason=str(e), gen_s=time.time()-t0); outq.put(res); return
        except RecursionError as e:
            res.update(status='out_of_subset', reason='recursion limit', gen_s=time.time()-t0); outq.put(res); return
        except Exception as e:
            from pyvc.engine import PyExc
            if isinstance(e, PyExc):
                res.update(status='raises', reason='the code raises %s on a feasible path (%s:%s)' % (e.name, '', getattr(e, 'line', '')), gen_s=time.time()-t0); outq.put(res); return
            res.update(status='out_of_subset', reason='engine: %s' % traceback.format_exc()[-600:], gen_s=time.time()-t0); outq.put(res); return
        res['gen_s'] = time.time()-t0
        obls = eng.obls; q = mp.Queue()
        todo = [i for i, o in enumerate(obls) if not o.goal is True]
        results = {i: ('unsat', 'simplify', 0.0, '', '') for i, o in enumerate(obls) if o.goal is True}
        def run(idxs, to):
            n = max(1, min(nproc, len(idxs)))
            ps = [mp.Process(target=discharge_slice, args=(eng, idxs[j::n], to, q, deadline)) for j in range(n)]
            for p in ps: p.start()
            left = n; fin = 0
            while left:
                try: x = q.get(timeout=max(5, deadline + 60 - time.time()))
                except Exception: break
                if x is None: left -= 1; continue
                results[x[0]] = x[1:]
            for p in ps:
                p.join(1)
                if p.is_alive(): p.kill()
        if todo: run(todo, otimeout)
        again = [i for i in todo if results.get(i, ('unknown',))[0] not in ('unsat', 'sat') and time.time() < deadline - 20]
        if again: run(again, otimeout*4)
        failed = []; by = {}; st = 0.0
        for i, o in enumerate(obls):
            r = results.get(i, ('unknown', '', 0.0, 'worker died', ''))
            st += r[2]
            if r[0] == 'unsat': by[r[1]] = by.get(r[1], 0) + 1
            else: failed.append({'obligation': o.name, 'kind': o.kind, 'where': o.where, 'status': r[0], 'reason': r[3], 'model': r[4]})
        # vacuity: some path reaches the postconditions
        from pyvc import solver
        vac = 'unknown'
        for facts in eng.pathends[:40]:
            r = solver.check(solver.instantiate(facts, [], (), 1, cap=2000), 10)
            if r.status == 'sat': vac = 'sat'; break
            if r.status == 'unsat': vac = 'unsat' if vac in ('unsat',) or facts is eng.pathends[0] else vac
            else: vac = 'not refuted'
        inv = sorted({'%s line %s: %s' % (a[0][1], a[0][2], a[1]) for a in eng.inv_proved})
        res.update(status='ok', obligations=len(obls), discharged=len(obls)-len(failed), failed=failed, by=by, solver_s=st, posts=info['posts'], paths=eng.npaths, ends=info['ends'],
                   vacuity=vac, used=sorted(eng.used), dropped=sorted(eng.dropped), contracts=sorted(eng.contracts), invariants=inv,
                   externals=sorted(eng.ext), assert_assumed=len(eng.raises), names=sorted({o.name for o in obls if o.kind == 'post'}))
        if info['posts'] == 0 or len(obls) == 0 or not eng.pathends: res['failed'].append({'obligation': 'vacuity guard: the postconditions are reached', 'kind': 'vacuity', 'where': '', 'status': 'failed', 'reason': 'no postcondition was generated', 'model': ''})
        elif vac == 'unsat': res['failed'].append({'obligation': 'vacuity guard: assumptions are satisfiable', 'kind': 'vacuity', 'where': '', 'status': 'failed', 'reason': 'contradictory assumptions', 'model': ''})
    except Exception:
        res.update(status='error', reason=traceback.format_exc()[-1500:])
    outq.put(res)

def counterexamples(prop, k, deadline):
    """small-scope instance of a failed proof: concrete sizes, models replayed on the real code"""
    from pyvc import solver, sc
    from pyvc.spec import P
    mod = importlib.import_module('props.' + prop); name, fn, opts = mod.PROOFS[k]
    fn_in = getattr(mod, 'from_model', None)
    if fn_in is None or 'small' not in opts: return []
    out = []
    for small in opts['small']:
        if time.time() > deadline: break
        try: eng, info = gen_proof(prop, k, small, 60)
        except BaseException: continue
        for o in eng.obls:
            if time.time() > deadline or len(out) > 8: break
            if o.goal is True: continue
            try:
                forms = solver.instantiate(o.facts, [__import__('z3').Not(o.goal)], o.extra, 2)
                r = solver.check(forms + [__import__('z3').Not(o.goal)], 8)
                if r.status == 'sat':
                    d = extract(r.model, eng.P.inputs)
                    if d is not None:
                        inp = fn_in(name, d)
                        if inp is not None: out.append(inp)
            except BaseException: continue
    return out
def extract(m, inputs):
    import z3, itertools
    from pyvc import sc
    def num(t):
        if isinstance(t, sc.XF):
            if t.nan is True or (t.nan is not False and z3.is_true(m.eval(t.nan, model_completion=True))): return float('nan')
            t = t.v
        if not z3.is_expr(t): return float(t) if not isinstance(t, bool) else t
        v = m.eval(t, model_completion=True)
        if z3.is_bool(v): return z3.is_true(v)
        if z3.is_int_value(v): return v.as_long()
        if z3.is_rational_value(v): return float(v.as_fraction())
        if z3.is_algebraic_value(v): return float(v.approx(20).as_fraction())
        raise ValueError
    d = {}
    for k, v in inputs.items():
        if v[0] == 'arr':
            sh = v[1].shape
            if not all(isinstance(n, int) for n in sh): return None
            def build(pre, dims): return [build(pre + (i,), dims[1:]) for i in range(dims[0])] if dims else num(v[2](pre))
            d[k] = build((), sh)
        else: d[k] = num(v[1])
    return d

def killtree(pid):
    try: kids = open('/proc/%d/task/%d/children' % (pid, pid)).read().split()
    except OSError: kids = []
    for c in kids: killtree(int(c))
    try: os.kill(pid, signal.SIGKILL)
    except OSError: pass

def known_findings():
    p = os.path.join(HERE, 'known_findings.txt'); out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith('#') and not l.startswith('fixed:'): out.append(l)
    return out

def main():
    global SCRATCH
    ap = argparse.ArgumentParser(); ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('-v', action='store_true')
    ap.add_argument('--noproof', action='store_true')
    a = ap.parse_args(); prop = a.prop; tier = 'thorough' if a.tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time(); SCRATCH = tempfile.mkdtemp(prefix='hapua_check_')
    try: code = decide(prop, tier, seed, t0, a)
    finally: shutil.rmtree(SCRATCH, ignore_errors=True)
    sys.stdout.flush(); os._exit(code)

def decide(prop, tier, seed, t0, a):
    mod = importlib.import_module('props.' + prop)
    total = 780 if tier == 'quick' else 3400
    deadline = t0 + total
    budget = getattr(mod, 'BUDGET', 25) if tier == 'quick' else 10*getattr(mod, 'BUDGET', 25)
    hasc = hasattr(mod, 'gen')
    searches = [start_search(prop, seed*1000 + j, budget) for j in range(1 if tier == 'quick' else 3)] if hasc else []
    proofs = list(getattr(mod, 'PROOFS', [])) if not a.noproof else []
    outq = mp.Queue(); results = []
    nproc = max(1, min(6, 8//max(1, len(proofs)) + 1))
    otime = getattr(mod, 'OTIMEOUT', 40)
    procs = [mp.Process(target=prove_worker, args=(prop, k, None, total*0.5, otime if tier == 'quick' else otime*4, nproc, deadline - 200, outq)) for k in range(len(proofs))]
    broken = False; running = []; queue = list(procs); maxpar = getattr(mod, 'MAXPAR', 6)
    while queue or running:
        while queue and len(running) < maxpar: p = queue.pop(0); p.start(); running.append(p)
        try: results.append(outq.get(timeout=1))
        except Exception: pass
        running = [p for p in running if p.is_alive()]
        if any(s.poll() is not None and os.path.exists(s.outfile) and json.load(open(s.outfile))['violations'] for s in searches):
            for p in running: killtree(p.pid)      # a failing input is known: no need to finish the proofs
            queue = []; running = []; broken = True; break
        if time.time() > deadline - 150:
            for p in running: killtree(p.pid)
            break
    while True:
        try: results.append(outq.get(timeout=0.5))
        except Exception: break
    got = {r['k'] for r in results}
    for k in range(len(proofs)):
        if k not in got: results.append({'k': k, 'status': 'not finished', 'reason': 'stopped: a failing input was found first'} if broken else {'k': k, 'status': 'timeout', 'reason': 'time limit'})
    results.sort(key=lambda r: r['k'])
    search = [end_search(s, max(30, budget*3)) for s in searches]
    failed = []; undecided = []
    for r in results:
        nm = proofs[r['k']][0]
        if r['status'] == 'ok':
            for f in r['failed']: failed.append(dict(f, proof=nm, k=r['k']))
        elif r['status'] == 'raises': failed.append({'obligation': 'no exception', 'kind': 'exception', 'where': '', 'status': 'failed', 'reason': r['reason'], 'model': '', 'proof': nm, 'k': r['k']})
        else: undecided.append({'proof': nm, 'status': r['status'], 'reason': r['reason']})
    viol = [v for s in search for v in s['violations']]
    errs = [s['error'] for s in search if 'error' in s]
    # structural checks of the real source (frame analyses) give findings directly
    static = None
    if hasattr(mod, 'static'):
        try: static = mod.static(REPO)
        except Exception as e: undecided.append({'proof': 'static', 'status': 'out of subset', 'reason': '%s: %s' % (type(e).__name__, e)})
    confirm = None
    if failed and not viol and hasc:
        cx = []
        try:
            for k in sorted({f['k'] for f in failed}): cx += counterexamples(prop, k, min(deadline - 120, time.time() + 90))
        except Exception: pass
        extra = None
        if cx:
            extra = os.path.join(SCRATCH, 'cx.pkl'); pickle.dump(cx, open(extra, 'wb'), protocol=4)
        b2 = max(10, min(90 if tier == 'quick' else 400, deadline - time.time() - 60))
        ss = [start_search(prop, seed*1000 + 500 + j, b2, extra if j == 0 else None) for j in range(6)]
        more = [end_search(s, b2 + 60) for s in ss]
        viol = [v for s in more for v in s['violations']]
        search += more
    # ---- evidence
    nobl = sum(r.get('obligations', 0) for r in results); ndis = sum(r.get('discharged', 0) for r in results)
    if static: nobl += static['obligations']; ndis += static['obligations'] - len(static['failed'])
    by = {}
    for r in results:
        for b, n in r.get('by', {}).items(): by[b] = by.get(b, 0) + n
    cov = {'functions_under_contract': sorted({u for r in results for u in r.get('used', [])}), 'postconditions': sorted({n for r in results for n in r.get('names', [])}),
           'proofs': [{'name': proofs[r['k']][0], 'status': r['status'], 'paths': r.get('paths'), 'obligations': r.get('obligations'), 'discharged': r.get('discharged'), 'generation_s': round(r.get('gen_s', 0), 2),
                       'solver_s': round(r.get('solver_s', 0), 2), 'satisfiable_assumptions': r.get('vacuity'), 'callee_contracts': r.get('contracts'), 'invariants_proved': r.get('invariants'), 'assert_paths_assumed': r.get('assert_assumed'), 'dropped_calls': r.get('dropped'), 'reason': r.get('reason')} for r in results],
           'by_backend': by, 'undecided': undecided}
    if static: cov['static'] = {k: v for k, v in static.items() if k != 'failed'}
    conc = {'evaluations': sum(s['evaluations'] for s in search), 'distinct_nontrivial': max([s['distinct_nontrivial'] for s in search] or [0]), 'rule': getattr(mod, 'RULE', ''), 'samples': (search[0]['samples'] if search else [])[:2]}
    level = mod.LEVEL
    if level == 'proof':
        cov.update(obligations=nobl, discharged=ndis, checker_cmd='python3-vt check.py %s --tier %s' % (prop, tier), trusted_base=TRUSTED + list(getattr(mod, 'TRUSTED', [])), bounded_contract_evaluation=conc)
    else:
        cov.update(conc)
        if nobl: cov.update(obligations=nobl, discharged=ndis)
    if errs: cov['errors'] = errs
    nviol = 0; code = 0; lines = []
    listed = known_findings()
    knownhits = {}
    for s in search:
        for k, n in s.get('known', {}).items(): knownhits[k] = knownhits.get(k, 0) + n
    for l in listed:
        if l.startswith('KNOWN-FINDING: property=%s ' % prop): print(l)
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    rp = os.path.join(HERE, 'replays', '%s.json' % prop)
    sf = (static or {}).get('failed', [])
    if viol:
        v = viol[0]
        json.dump({'property': prop, 'clause': v['clause'], 'detail': v['detail'], 'input': v['input'], 'pickle': v['pickle'], 'failed_obligations': failed[:20],
                   'replay_cmd': 'PYTHONPATH=/repo /opt/venv/bin/python /verif/concrete.py %s --replay %s' % (prop, rp)}, open(rp, 'w'), indent=1)
        print('property %s: contract clause fails on the real code: %s (%s)' % (prop, v['clause'], v['detail']))
        for f in failed[:5]: print('  failed obligation: %s [%s] %s' % (f['obligation'], f['proof'], f['where']))
        print('VIOLATION property=%s replay=%s' % (prop, rp)); code = 1; nviol = len(viol)
    elif sf and getattr(mod, 'STATIC_CONFIRMED', False):
        json.dump({'property': prop, 'failed': sf}, open(rp, 'w'), indent=1)
        for f in sf[:5]: print('  failed obligation: %s' % f)
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp)); code = 1; nviol = len(sf)
    elif failed or sf:
        json.dump({'property': prop, 'failed_obligations': failed, 'static': sf, 'note': 'the verifier does not discharge these obligations on the current source; no concrete failing input was found'}, open(rp, 'w'), indent=1)
        for f in failed[:8]: print('  failed obligation: %s [%s] at %s: %s %s' % (f['obligation'], f['proof'], f['where'], f['status'], f['reason']))
        for f in sf[:5]: print('  failed obligation: %s' % (f,))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp)); code = 1; nviol = len(failed)
    else:
        if undecided: print('property %s: outside the verified subset, bounded contract evaluation only: %s' % (prop, '; '.join('%s: %s' % (u['proof'], u['reason'][-300:]) for u in undecided)))
        if errs: print('note: ' + errs[0][-800:])
        print('property %s holds: %d/%d obligations discharged, %d contract evaluations on the real code' % (prop, ndis, nobl, conc['evaluations']))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': ASSUME + list(getattr(mod, 'ASSUMPTIONS', [])), 'wall_s': round(time.time()-t0, 2), 'violations': nviol},
              open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1, default=str)
    if a.v:
        for r in results: print({k: v for k, v in r.items() if k not in ('names',)})
        print({k: v for k, v in conc.items() if k != 'samples'}, errs)
    return code
TRUSTED = ['pyvc symbolic executor and numpy contracts (/verif/pyvc)', 'z3 5.3 / cvc5', 'CPython ast parser']
ASSUME = ['float64 arithmetic treated as exact real arithmetic', 'logging and print calls are dropped from the verified text',
          'numpy/scipy/pandas operations behave as their contracts in pyvc/nplib.py state']
if __name__ == '__main__':
    mp.set_start_method('fork'); main()
