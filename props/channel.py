"""generators of river channels and the discrete Saint-Venant balances (plain numpy, independent of the code)"""
import numpy as np

def pars(rng, tol=None):
    return dict(Beta=float(rng.choice([1., 1.1, 1.2])), Theta=float(rng.choice([.55, .7, 1.])), ErrTol=float(tol if tol else rng.choice([1e-2, 1e-3, 1e-4])),
                MaxIt=int(rng.choice([10, 20, 40])), WarnTol=.1)
def channel(rng, nmax=14, smooth=False):
    n = int(rng.integers(2, nmax)); dx = rng.choice([5., 10., 20.])*np.ones(n-1)
    if rng.random() < .4: dx *= rng.uniform(.5, 1.6, n-1)
    s = rng.choice([.0005, .002, .005])
    z = np.concatenate([[0], -np.cumsum(dx*s)]); z -= z[-1] - rng.uniform(-3, 0)
    B = rng.choice([20., 70.])*np.ones(n)
    if not smooth:
        if rng.random() < .5: z += rng.normal(0, rng.choice([.05, .5]), n)
        if rng.random() < .5: B *= rng.uniform(.5, 1.5, n)
        if rng.random() < .1: B[rng.integers(n)] = rng.uniform(1, 5)
    else:
        if rng.random() < .5: z += rng.normal(0, .02, n)
        if rng.random() < .5: B *= rng.uniform(.9, 1.1, n)
    return z, B, dx

class Step:
    """one accepted implicit step: residuals and the bounds the Newton acceptance test implies"""
    def __init__(self, z, B, LagArea, LagLen, closed, h0, V0, h, V, dx, dt, Q, sea, sea0, N, P):
        g, n, K = P['Gravity'], P['RoughnessManning'], P['BarrierPermeability']; th, be, tol = N['Theta'], N['Beta'], N['ErrTol']
        w = lambda new, old: th*new + (1-th)*old
        # planform area of section i shared between its reaches: half of each neighbouring reach and the attached lagoon
        m = z.size; L = np.zeros(m); L[:-1] += dx/2; L[1:] += dx/2
        def vol(h): 
            a = h*(B + LagArea/L); return dx/2*(a[:-1] + a[1:])
        q = lambda h, V: V*B*h
        net = w(np.diff(q(h, V)), np.diff(q(h0, V0)))
        seep_len = (LagLen[:-1]+LagLen[1:])/2
        head = lambda h, s: (z[:-1]+h[:-1]+z[1:]+h[1:])/2 - s
        seep = K*seep_len*w(head(h, sea), head(h0, sea0))
        self.cont = vol(h)-vol(h0) + dt*net + dt*seep
        b = dt*th*(B[:-1]+B[1:])*tol**2
        sc_ = np.abs(vol(h)) + dt*(np.abs(q(h, V)[:-1])+np.abs(q(h, V)[1:])) + dt*np.abs(seep)
        self.cont_bound = b + 1e-9*sc_ + 1e-9
        self.us = V[0]*B[0]*h[0] - Q; self.us_bound = B[0]*tol**2 + 1e-9*(1+abs(Q))
        if closed: self.ds = h[-1]*V[-1]; self.ds_bound = tol**2 + 1e-9
        else: self.ds = z[-1]+h[-1]-sea; self.ds_bound = 1e-8
        # momentum:  mean discharge, momentum flux, pressure, bed slope and friction, times reach length
        S0 = (z[:-1]-z[1:])/dx
        Sf = lambda h, V: V*np.abs(V)*n**2/h**(4/3)
        A = lambda h: B*h
        flux = lambda h, V: be*np.diff(V*np.abs(V)*A(h))
        pres = lambda h: g*(A(h)[:-1]+A(h)[1:])/2*np.diff(h)
        fr = lambda h, V: g*dx/2*(A(h)[1:]*(S0-Sf(h, V)[1:]) + A(h)[:-1]*(S0-Sf(h, V)[:-1]))
        Qm = lambda h, V: dx/2*(q(h, V)[:-1]+q(h, V)[1:])
        self.mom = Qm(h, V)-Qm(h0, V0) + dt*(w(flux(h, V), flux(h0, V0)) + w(pres(h), pres(h0)) - w(fr(h, V), fr(h0, V0)))
        hl, Vu = np.maximum(h-tol, 1e-12), np.abs(V)+tol
        t = tol**2
        e = dx.mean()*0
        s2 = lambda a: a[:-1]+a[1:]
        bnd = dx/2*s2(B)*t + dt*th*be*s2(B*(h+tol) + 2*B*Vu)*t + dt*th*g*s2(B)*t + dt*th*g*dx/2*s2(B*n**2*(hl**(-1/3) + 2/3*Vu*hl**(-4/3) + 2/9*Vu**2*hl**(-7/3)))*t
        sc2 = np.abs(Qm(h, V)) + np.abs(Qm(h0, V0)) + dt*(s2(np.abs(be*V*V*A(h))) + np.abs(pres(h)) + g*dx*s2(A(h))*(np.abs(S0) + s2(np.abs(Sf(h, V)))) + s2(np.abs(be*V0*V0*A(h0))) + np.abs(pres(h0)) + g*dx*s2(A(h0)*(np.abs(Sf(h0, V0)))))
        self.mom_bound = 1.05*bnd + 1e-9*sc2 + 1e-9
        self.tol_h = hl

def physpars(rng):
    return dict(Gravity=9.81, RoughnessManning=float(rng.choice([.02, .03, .04])), BarrierPermeability=float(rng.choice([0., 1e-4, .001, .01])))
def unsteady(rng, T=1, closed=None, tol=None, nmax=12):
    """channel near a steady state, stepped with changed boundary values"""
    z, B, dx = channel(rng, nmax, smooth=True); n = z.size
    N = pars(rng, tol); P = physpars(rng)
    if closed is None: closed = bool(rng.random() < .3)
    LA, LL = np.zeros(n), np.zeros(n)
    if rng.random() < .7:
        a = int(rng.integers(0, n)); b = int(rng.integers(a, n)); LL[a:b+1] = 10.
        LA[a] += rng.uniform(0, 5000); LA[b] += rng.uniform(0, 5000); LL[a] += rng.uniform(0, 100); LL[b] += rng.uniform(0, 100)
    q = rng.uniform(.3, 2)*B.mean(); h = np.full(n, rng.uniform(1., 3.)) + rng.uniform(-.1, .1, n); sea = z[-1] + h[-1]
    h = np.maximum(sea - z + rng.uniform(-.02, .02, n), .3); h[-1] = sea - z[-1]
    V = q/(B*h)*rng.uniform(.95, 1.05, n)
    if closed: V[-1] = 1e-7; V *= np.linspace(1, 0, n)*.9 + 1e-6
    dt = float(rng.choice([1., 5., 10., 30., 60.]))
    Q = q*rng.uniform(.8, 1.3, T); S = sea + np.cumsum(rng.uniform(-.05, .05, T))
    return dict(z=z, B=B, LA=LA, LL=LL, closed=closed, h=h, V=V, dx=dx, dt=dt, Q=Q, S=S, N=N, P=P)
def run(riv, d, h, V, Q, S):
    import pandas as pd
    riv.solveFullPreissmann(d['z'], d['B'], d['LA'], d['LL'], d['closed'], h, V, d['dx'], pd.Timedelta(seconds=d['dt']), np.array(Q, float), np.array(S, float), d['N'], d['P'])
def accepted(riv, d, T=1, h0=None, V0=None):
    """state after the first T steps in one call if the last one was accepted without clamping, else None"""
    h, V = d['h'].copy(), d['V'].copy()
    h0, V0 = (d['h'], d['V']) if h0 is None else (h0, V0)
    try: run(riv, d, h, V, d['Q'][:T], d['S'][:T])
    except (AssertionError, ValueError): return None
    if np.array_equal(h, h0) and np.array_equal(V, V0): return None
    if not (np.isfinite(h).all() and np.isfinite(V).all()): return None
    if (h <= .0002).any() or (V == .0001).any(): return None
    try:
        hs, Vs = riv.solveSteady(d['dx'], d['z'], d['B'], d['P']['RoughnessManning'], d['Q'][T-1], d['S'][T-1], d['N'])
        if np.allclose(h, hs, rtol=0, atol=1e-13): return None       # reverted to the steady profile
    except AssertionError: pass
    return h, V
class Spy:
    """records the Newton corrections of the steps made while it is active (contract of scipy.linalg.solve_banded:
    the vector returned is the correction)"""
    def __init__(self, riv): self.riv = riv; self.deltas = []
    def __enter__(self):
        import scipy.linalg as L
        self.L, self.real = L, L.solve_banded
        def f(*a, **k): r = self.real(*a, **k); self.deltas.append(np.array(r)); return r
        self.f = f; L.solve_banded = f
        self.own = getattr(self.riv, 'solve_banded', None)
        if self.own is not None: self.riv.solve_banded = f
        return self
    def __exit__(self, *a):
        self.L.solve_banded = self.real
        if self.own is not None: self.riv.solve_banded = self.own
