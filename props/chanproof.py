"""symbolic barrier/lagoon/outlet geometry and a run of the real riv.assembleChannel on it (shared by H05, H06, H07)"""
CASES = [(side, closed, l2r) for side in ('right', 'inline', 'left') for closed, l2r in ((True, True), (False, True), (False, False))]
def name(c): return 'riv.assembleChannel (outlet %s, %s)' % ({'right': 'right of the river', 'inline': 'in line with the river', 'left': 'left of the river'}[c[0]],
    'mouth closed before' if c[1] else 'mouth open before, outlet %s' % ('rightwards' if c[2] else 'leftwards'))

def setup(p, case, **opt):
    from pyvc import sc
    from pyvc.sc import And, Or, Not, Implies
    from pyvc.arr import mk, iadd, isub, ilt, ile, inrange
    from pyvc.solver import Forall
    from pyvc.spec import V, AV
    import z3
    from fractions import Fraction
    side, closed, l2r = case; S = p.S; eng = p.eng
    class G: pass
    g = G(); g.case = case
    T = p.size('NTransects', 3); x0 = p.int('X0Ix'); a = p.int('startIx'); b = p.int('endIx'); nr = p.size('nriv', 1)
    p.assume(And(inrange(x0, 0, T), inrange(a, 0, T), inrange(b, 0, T)))
    xf = eng.freshfn('X', sc.I, sc.R); X = lambda i: xf(sc.zi(i))
    eng.fact(Forall(2, lambda i, j: Implies(ilt(i, j), X(i) < X(j)) if not (isinstance(i, int) and isinstance(j, int) and i >= j) else True, 'increasing'))
    eng.fact(X(x0) == 0); eng.fact(z3.And(z3.Implies(a > x0, X(a) > 0), z3.Implies(a < x0, X(a) < 0)))
    dx = p.real('Dx', gt=0)
    XA = mk((T,), lambda i: X(i[0]), 'f', name='ShoreX'); XA.buf.input = True; p.inputs['ShoreX'] = ('arr', XA, XA.buf.content)
    miss = eng.freshfn('chan_missing', sc.I, sc.B)
    Y = p.shore(T, 'ShoreY', 5, (1, 2), miss); Z = p.shore(T, 'ShoreZ', 4, (1, 2), miss)
    e1 = p.real('EndX')
    p.assume({'right': a > x0, 'inline': a == x0, 'left': a < x0}[side])
    EA = mk((2,), lambda i: (X(a) if i[0] == 0 else e1.x) if isinstance(i[0], int) else z3.If(i[0] == 0, X(a), e1.x), 'f', name='OutletEndX'); EA.buf.input = True; p.inputs['OutletEndX'] = ('arr', EA, EA.buf.content)
    if not closed:
        if l2r: p.assume(And(X(a) < e1.x, a <= b, X(b) <= e1.x, b + 1 < T, e1.x < X(b+1)))
        else: p.assume(And(e1.x <= X(a), b <= a, e1.x <= X(b), b >= 1, X(b-1) < e1.x))
    ew, ee = p.real('OutletEndWidth'), p.real('OutletEndElev')
    RE, RD, RV = p.arr('RiverElev', nr), p.arr('RivDep', nr, cond=lambda v: v > 0), p.arr('RivVel', nr)
    WL = p.arr('LagoonWL', T); LV = p.arr('LagoonVel', T, nan=True); OD = p.arr('OutletDep', T, nan=True); OV = p.arr('OutletVel', T, nan=True)
    ED, EV = p.arr('OutletEndDep', 2, nan=True), p.arr('OutletEndVel', 2, nan=True)
    P = {k: p.real(k, gt=0) for k in ('MinOutletWidth', 'RiverWidth')}; P['MaxOutletElev'] = p.real('MaxOutletElev')
    ins = [XA, Y, Z, EA, RE, RD, RV, WL, LV, OD, OV, ED, EV]
    eng.fact(Forall(1, lambda i: Implies(inrange(i, 0, T), p.old(WL)[i].x - sc.parts(p.old(Z)[i, 3].x)[0] > 0), 'lagoon has water'))
    if not closed:
        for A_, in ((OD,),): eng.fact(Forall(1, lambda i: Implies(inrange(i, 0, T), Or(S.isnan(p.old(OD)[i]), sc.parts(p.old(OD)[i].x)[0] > 0)), 'positive depths'))
        for q in (0, 1): p.assume(Or(S.isnan(p.old(ED)[q]), sc.parts(p.old(ED)[q].x)[0] > 0))
    p.assume(S.And(*[sc.Not(S.isnan(p.old(Y)[x0, j])) for j in (3, 4)], p.old(Y)[x0, 3] - p.old(Y)[x0, 4] >= P['MinOutletWidth']))      # M03: the lagoon at the river mouth is wide enough
    r = p.call('riv.assembleChannel', XA, Y, Z, EA, ew, ee, closed, RE, RD, RV, WL, LV, OD, OV, ED, EV, dx, P)
    (g.dx, g.elev, g.width, g.area, g.len, g.dep, g.vel, g.on, g.oc, g.flag, g.closed) = r
    g.__dict__.update(T=T, x0=x0, a=a, b=b, nr=nr, X=X, step=dx, e1=e1, ew=ew, ee=ee, P=P, ins=ins, y=p.old(Y), z=p.old(Z), re=p.old(RE), rd=p.old(RD), rv=p.old(RV), wl=p.old(WL), lv=p.old(LV), od=p.old(OD), ov=p.old(OV), ed=p.old(ED), ev=p.old(EV))
    g.lw = lambda i: V(sc.sub(g.y[i, 3].x, g.y[i, 4].x))
    g.right = side != 'left'
    g.at = (lambda k: iadd(x0, k)) if g.right else (lambda k: isub(x0, k))
    if not isinstance(g.closed, bool): g.closed = eng.branch(eng.truth(g.closed))
    g.non = p.cur(g.on).shape[0]
    g.noc = isub(iadd(b, 1), a) if l2r else isub(iadd(a, 1), b)
    g.oat = (lambda k: iadd(a, k)) if l2r else (lambda k: isub(a, k))
    return g

def river_lagoon(p, g):
    """the part of the flow path both properties share: online lagoon transects"""
    from pyvc import sc
    from pyvc.sc import And, Or, Not, Implies
    from pyvc.arr import iadd, isub, ieq, ilt, ile, inrange, imul
    from pyvc.solver import Forall
    S, T, n, x0 = p.S, g.T, g.non, g.x0; lw, mw = g.lw, g.P['MinOutletWidth']; side, closed0, l2r = g.case
    on = p.cur(g.on)
    p.check('online lagoon transects walk from the river to the outlet', And(ile(1, n), inrange(g.at(isub(n, 1)), 0, T)))
    p.check('online lagoon transects walk from the river to the outlet', S.forall(0, n, lambda k: ieq(on[k], g.at(k))))
    p.check('online lagoon widths are positive', S.forall(0, n, lambda k: lw(g.at(k)) > 0))
    p.check('no online lagoon transect is below the closure width', S.forall(0, n, lambda k: lw(g.at(k)) >= mw))
    # the flow path as far as it goes without a pinch
    nxt = g.at(n); more = lambda j: inrange(j, 0, T)
    ob = g.ob
    if ob: far = isub(g.a, x0) if g.right else isub(x0, g.a)    # open outlet: up to the transect before the outlet (at least one)
    if ob:
        full = 1 if side == 'inline' else far
        p.check('an open mouth keeps the whole path to the outlet online, a pinch ends it', (ieq(n, full) if not g.closed else And(ilt(n, full), sc.zb(lw(nxt) < mw))))
    else:
        # up to the furthest transect with lagoon, unless pinched
        i = p.eng.fresh('beyond', sc.I)
        p.check('a closed lagoon is online up to a pinch or its furthest transect', Or(And(more(nxt), sc.zb(lw(nxt) < mw)), Implies(And(more(i), ile(nxt, i) if g.right else ile(i, nxt)), Not(lw(i) > 0))), (i, nxt))
        p.check('a closed lagoon ends at a transect with lagoon', lw(g.at(isub(n, 1))) > 0)

def outlet_open(p, g):
    """was the outlet channel itself wide enough (before the lagoon is considered)?  as proof obligations on this path"""
    from pyvc import sc
    from pyvc.sc import And, Or, Not, Implies
    from pyvc.arr import inrange
    from pyvc.solver import Forall
    S = p.S; mw = g.P['MinOutletWidth']
    g.ow = lambda i: S.ite(S.isnan(g.y[i, 1]), _zero(), g.y[i, 1] - g.y[i, 2])
    g.chan = lambda i: inrange(i, min_(g), max1(g))
    wide = Forall(1, lambda i: Implies(g.chan(i), sc.zb(g.ow(i) > mw)), 'outlet wide')
    return wide, sc.zb(g.ew > mw)
def min_(g): return g.a if g.case[2] else g.b
def max1(g):
    from pyvc.arr import iadd
    return iadd(g.b, 1) if g.case[2] else iadd(g.a, 1)
def _zero():
    from pyvc.spec import V
    from fractions import Fraction
    return V(Fraction(0))
def fork_outlet(p, g):
    """case split: outlet channel and end wider than the closure width or not (specification side)"""
    from pyvc import sc
    from pyvc.arr import inrange
    eng = p.eng
    if g.case[1]: g.ob = False; return
    wide, ew = outlet_open(p, g)
    if eng.choose(2) == 0:
        g.ob = True; eng.fact(wide); eng.fact(ew)
    else:
        g.ob = False; w = eng.fresh('narrow', sc.I)
        eng.fact(sc.Or(sc.Not(ew), sc.And(g.chan(w), sc.zb(sc.Not(g.ow(w) > g.P['MinOutletWidth'])))))
    eng.validc = {}
