"""Plotting never alters the model state."""
import numpy as np
from props import morph
LEVEL = 'proof'; BUDGET = 45
RULE = 'distinct (closed, orientation, drawn with levels / waves / transport) classes of complete plot sets'
PROOFS = []
TECHNIQUE = 'frame contract (assigns clause: only the figure record) on every plotting function, discharged write by write and call by call (callee contracts) by a flow-sensitive alias verifier over the source; same contract evaluated on the real code'
NOTE = 'unbounded in inputs; trusts the alias rules for numpy in pyvc/frame.py and that matplotlib artists do not write to the arrays handed to them'
ASSUMPTIONS = ['matplotlib artist and axes methods do not modify the arrays they are given', 'numpy view/copy rules as listed in pyvc/frame.py']
TRUSTED = ['matplotlib artists (frame condition assumed)', 'pyvc/frame.py alias rules']
PLOTS = ('longSection', 'updateLongSection', 'modelView', 'updateModelView', 'bdyCndFig', 'updateBdyCndFig', 'newTransectFig', 'updateTransectFig')
FIGS = ('ModelFig', 'LongSecFig', 'BdyFig', 'TransectFig')
NUMBERS = ('RiverWidth', 'SpitWidth', 'WavePower', 'EDir_h', 'Closed', 'WaveScaling', 'CstScaling', 'LstScaling', 'QuiverWidth', 'PlotTime', 'SeaLevel', 'BeachSlope', 'BackshoreElev', 'ClosureDepth', 'BeachTopElev', 'TransectX')
NDIMS = dict(ShoreX=1, ShoreY=2, ShoreZ=2, OutletEndX=1, OutletChanIx=1, LST=1, CST=1, ChanDx=1, ChanElev=1, ChanWidth=1, ChanDep=1, ChanVel=1, Bedload=1, LagoonWL=1, OutletWL=1)
def static(repo):
    from pyvc.frame import Frame
    fr = Frame(repo, 'visualise', FIGS, NUMBERS, NDIMS); fns = [f for f in PLOTS if f in fr.load('visualise')[0]]
    for f in fns: fr.verify(f)
    held = set()
    for f in fns:
        r = fr.sums['visualise', f][1]; fr.obl += 1; held = sorted((r.s | r.e) - set(FIGS))
        if held: fr.failed.append({'obligation': 'visualise.%s returns a figure that holds none of the model arrays' % f, 'where': 'visualise.py', 'reason': 'the result may hold ' + ', '.join(held)})
    return dict(obligations=fr.obl, failed=fr.failed, functions_under_contract=['visualise.' + f for f in sorted({k[1] for k in fr.sums})], trusted_calls=sorted(fr.trusted))
def gen(rng):
    d = morph.state(rng)
    if d is None: return None
    if rng.random() < .5: d['cd'] = np.where(rng.random(d['cd'].size) < .2, rng.choice([0., 1e-6, 5e-4, .05], d['cd'].size), d['cd'])      # dry and nearly dry reaches
    if rng.random() < .15: d['cd'] = np.where(rng.random(d['cd'].size) < .2, np.nan, d['cd'])
    if rng.random() < .4: k = rng.random(d['X'].size) < .2; d['Y'][k, 3] = d['Y'][k, 4] - rng.uniform(0, 2, k.sum())                  # lagoon eroded into the cliff
    if rng.random() < .15: d['Y'][rng.random(d['X'].size) < .1, 3] = np.nan
    d['opt'] = [bool(rng.random() < .7) for _ in range(4)]; d['ww'] = float(rng.uniform(0, 5000)); d['dir'] = float(rng.uniform(-2, 2))
    return d
def nontrivial(d): return (d['closed'], bool(d['E'][0] < d['E'][1])) + tuple(d['opt'])
def still():
    """no pixels are drawn (the property is about the data), and lines accept scalars as the matplotlib this code was written for did"""
    import numpy as np
    from matplotlib.backends.backend_agg import FigureCanvasAgg as C
    from matplotlib.lines import Line2D as L
    if getattr(C, '_still', False): return
    C.draw = lambda self, *a, **k: None; C.flush_events = lambda self: None; C._still = True; old = L.set_data
    L.set_data = lambda self, *a: old(self, *[np.atleast_1d(x) if np.ndim(x) == 0 else x for x in a])
def evaluate(d, S):
    import numpy as np, copy, pandas as pd, matplotlib; matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from hapuamod import visualise
    rng = np.random.default_rng(1); n, ns = d['X'].size, d['cw'].size
    a = dict(X=d['X'], Y=d['Y'], Z=d['Z'], E=d['E'], EW=d['EW'], oc=d['oc'], LST=d['LST'], CST=d['CST'], dx=d['cdx'], ce=rng.normal(0, 1, ns), cw=d['cw'], cd=d['cd'], cv=rng.normal(0, 1, ns), bed=d['bed'], P=d['P'],
             bdy=pd.DataFrame(dict(Qin=[1., 2.], Qout=[1., 3.], SeaLevel=[.1, .2]), index=pd.to_datetime(['2000-01-01', '2000-01-02'])))
    b = copy.deepcopy(a); bad = []
    def check(step):
        for k in a:
            if isinstance(a[k], dict): ok = a[k] == b[k]
            elif isinstance(a[k], pd.DataFrame): ok = a[k].equals(b[k]) and list(a[k].columns) == list(b[k].columns)
            else: ok = a[k].shape == b[k].shape and a[k].dtype == b[k].dtype and np.array_equal(a[k], b[k], equal_nan=a[k].dtype.kind == 'f')
            if not ok: bad.append(('%s leaves the model state unchanged' % step, '%s: %r before %r' % (k, a[k], b[k])))
    z, w, l, bl = d['opt']
    kw = dict(ShoreZ=a['Z'] if z else None, WavePower=d['ww'] if w else None, EDir_h=d['dir'], LST=a['LST'] if l else None, CST=a['CST'] if l else None)
    t = pd.Timestamp('2000-01-01 10:00'); still()
    def attempt(step, f):
        try: r = f()
        except Exception: r = None          # a plot that cannot be drawn is not this property's concern
        check(step); return r
    try:
        L = attempt('long section', lambda: visualise.longSection(a['dx'], a['ce'], a['cw'], a['cd'], a['cv'], a['bed'] if bl else None))
        if L is not None: attempt('long section update', lambda: visualise.updateLongSection(L, a['dx'], a['ce'], a['cw'], a['cd'], a['cv'], a['bed'] if bl else None, t))
        if d['oc'].size and not d['closed']:
            M = attempt('plan view', lambda: visualise.modelView(a['X'], a['Y'], a['E'], a['EW'], a['oc'], d['P']['RiverWidth'], d['P']['SpitWidth'], **kw))
            if M is not None: attempt('plan view update', lambda: visualise.updateModelView(M, a['X'], a['Y'], a['E'], a['EW'], a['oc'], Closed=d['closed'], PlotTime=t, **kw))
        elif d['closed']:
            g = dict(RiverWidth=d['P']['RiverWidth'], SpitWidth=d['P']['SpitWidth'])
            def closedview():
                o = np.array([int(np.flatnonzero(a['X'] == 0)[0])]); Y = a['Y'].copy(); Y[o, 1:3] = Y[o, 3:4] + [[2., 1.]]
                M = visualise.modelView(a['X'], Y, np.zeros(2), np.asarray(3.), o, d['P']['RiverWidth'], d['P']['SpitWidth'], **kw)
                visualise.updateModelView(M, a['X'], a['Y'], a['E'], a['EW'], a['oc'], Closed=True, PlotTime=t, **kw)
            attempt('plan view update', closedview)
        B = attempt('boundary conditions', lambda: visualise.bdyCndFig(a['bdy']))
        if B is not None: attempt('boundary conditions update', lambda: visualise.updateBdyCndFig(B, a['bdy']))
        if 'newTransectFig' in dir(visualise):
            owl = np.where(np.isnan(d['OD']), np.nan, d['OD']+a['Z'][:, 1]); args = dict(WL=d['WL'], owl=owl); keep = copy.deepcopy(args)
            T = attempt('transect', lambda: visualise.newTransectFig(a['X'], a['Y'], a['Z'], args['WL'], args['owl'], .2, .13, 10., 5., 2., float(a['X'][n//3])))
            if T is not None: attempt('transect update', lambda: visualise.updateTransectFig(T, a['Y'], a['Z'], args['WL'], args['owl'], .3, PlotTime=t))
            for k in args:
                if not np.array_equal(args[k], keep[k], equal_nan=True): bad.append(('transect leaves the model state unchanged', k))
        return bad
    finally: plt.close('all')
