"""Evaluates the contracts of one property on the real code with generated inputs (runs in the repo's interpreter).

usage: concrete.py PROP --seed N --budget SECONDS --out FILE [--max N]      search
       concrete.py PROP --replay FILE                                        re-run one recorded input (exit 1 if it fails)
"""
import sys, os, json, time, pickle, base64, argparse, copy, importlib, traceback, warnings, logging
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get('HAPUA_REPO', '/repo'))
sys.dont_write_bytecode = True
import numpy as np
warnings.simplefilter('ignore'); np.seterr(all='ignore')
logging.disable(logging.CRITICAL)

def show(x, d=0):
    if isinstance(x, np.ndarray): return x.tolist() if x.size <= 80 else '%s array' % (x.shape,)
    if isinstance(x, dict): return {str(k): show(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)): return [show(v) for v in x]
    if isinstance(x, (np.floating, np.integer, np.bool_)): return x.item()
    if isinstance(x, (int, float, str, bool)) or x is None: return x
    return repr(x)[:300]

def run_one(mod, inp):
    from pyvc.cspec import CS
    try: return mod.evaluate(copy.deepcopy(inp), CS())
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [t for t in tb if '/hapuamod/' in t.filename]
        if not where: raise
        return [('the code under contract raises %s' % type(e).__name__, '%s at %s:%d' % (str(e)[:200], os.path.basename(where[-1].filename), where[-1].lineno))]

def main():
    ap = argparse.ArgumentParser(); ap.add_argument('prop'); ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--budget', type=float, default=20); ap.add_argument('--max', type=int, default=10**9)
    ap.add_argument('--out'); ap.add_argument('--replay')
    a = ap.parse_args()
    mod = importlib.import_module('props.' + a.prop)
    if a.replay:
        d = json.load(open(a.replay))
        if 'pickle' not in d: print('no recorded input in this replay file'); return 0
        inp = pickle.loads(base64.b64decode(d['pickle']))
        f = run_one(mod, inp)
        for c, det in f: print('FAILS:', c, '|', det)
        print('contract violated' if f else 'contract holds'); return 1 if f else 0
    t0 = time.time(); n = 0; classes = set(); samples = []; viol = []; known = {}
    rng = np.random.default_rng(a.seed)
    fixed = list(getattr(mod, 'FIXED', []))
    kf = getattr(mod, 'known', None)
    extra = os.environ.get('HAPUA_EXTRA_INPUTS')
    if extra and os.path.exists(extra): fixed = pickle.load(open(extra, 'rb')) + fixed
    while n < a.max and (time.time()-t0 < a.budget or n < len(fixed)):
        inp = fixed[n]() if n < len(fixed) and callable(fixed[n]) else (fixed[n] if n < len(fixed) else mod.gen(rng))
        if inp is None: n += 1; continue
        f = run_one(mod, inp); n += 1
        c = mod.nontrivial(inp)
        if c is not None: classes.add(c)
        if len(samples) < 2 and c is not None: samples.append(show(inp))
        for clause, det in f:
            k = kf(inp, clause) if kf else None
            if k: known[k] = known.get(k, 0) + 1; continue
            viol.append({'clause': clause, 'detail': str(det)[:500], 'input': show(inp), 'pickle': base64.b64encode(pickle.dumps(inp)).decode()})
        if viol: break
    json.dump({'evaluations': n, 'distinct_nontrivial': len(classes), 'samples': samples, 'violations': viol, 'known': known, 'wall': time.time()-t0, 'rule': mod.RULE}, open(a.out, 'w'))
if __name__ == '__main__': sys.exit(main())
