"""Objectives, optimizations and their recorded evaluation."""
import autograd.numpy as npa
from angler import Optimization
from angler.objective import Objective, obj_arg
from fdfd import Grid
from .common import *
from rec import num


# ---- reference density maps (to make consistent setups and tangents) ------------
def filt(mask, npml, R, rho):
    if not R:
        return rho
    Nx, Ny = rho.shape
    out = np.array(rho, dtype=float)
    offs = [(a, b, R - np.hypot(a, b)) for a in range(-R, R + 1) for b in range(-R, R + 1) if R - np.hypot(a, b) > 0]
    tot = sum(o[2] for o in offs)

    def clear(i, n, p):
        return p == 0 or (i >= R + p + 1 and i < n - R - 1 - p)
    for i in range(Nx):
        for j in range(Ny):
            if mask[i, j] == 1:
                out[i, j] = sum(w * rho[(i + a) % Nx, (j + b) % Ny] for a, b, w in offs) / tot \
                    if clear(i, Nx, npml[0]) and clear(j, Ny, npml[1]) else 0
    return out


def proj_den(b, eta):
    return np.tanh(b * eta) + np.tanh(b * (1 - eta))


class Design:
    def __init__(self, mask, npml, R, eta, beta, epsm):
        self.mask, self.npml, self.R, self.eta, self.beta, self.epsm = mask, npml, R, eta, beta, epsm

    def image(self, rho, old):
        t = filt(self.mask, self.npml, self.R, rho)
        p = (np.tanh(self.beta * self.eta) + np.tanh(self.beta * (t - self.eta))) / proj_den(self.beta, self.eta)
        return np.where(self.mask == 1, 1 + p * (self.epsm - 1), old)

    def dimage(self, rho, d):
        t = filt(self.mask, self.npml, self.R, rho)
        D = filt(self.mask, self.npml, self.R, d)
        f = self.beta * (1 - np.tanh(self.beta * (t - self.eta))**2) / proj_den(self.beta, self.eta)
        return np.where(self.mask == 1, (self.epsm - 1) * f * D, 0)

    def rec(self, tr):
        return dict(mask=tr.A(self.mask), R=int(self.R or 0), eta=num(self.eta), beta=num(self.beta), epsm=num(self.epsm))

    def opt(self, tr, obj, sim, **kw):
        tr.own('design mask', self.mask)
        return Optimization(obj, sim, self.mask, eps_m=self.epsm, R=self.R or None, eta=self.eta, beta=self.beta, **kw)


# ---- objectives -----------------------------------------------------------------
class Obj:
    """args: [(component, nl)]; terms: [(coefficient, [factor])], a factor being
    ('abs2', a, w) | ('lin', a, w) | ('cross', a, b, w) with weight arrays w"""
    def __init__(self, args, terms):
        self.args, self.terms = args, terms
        self.W = []
        for c, fs in terms:
            for f in fs:
                self.W.append(f[-1])

    def J(self):
        terms = self.terms

        def value(*F):
            J = 0
            for c, fs in terms:
                p = c
                for f in fs:
                    if f[0] == 'abs2':
                        p = p * npa.sum(f[2] * npa.square(npa.abs(F[f[1]])))
                    elif f[0] == 'lin':
                        p = p * npa.real(npa.sum(f[2] * F[f[1]]))
                    else:
                        p = p * npa.real(npa.sum(f[3] * F[f[1]] * npa.conj(F[f[2]])))
                J = J + p
            return J
        names = ['F%d' % i for i in range(len(self.args))]
        return eval('lambda %s: value(%s)' % (', '.join(names), ', '.join(names)), {'value': value})

    def arg_list(self):
        # (names are labels: two arguments may well have the same)
        return [obj_arg(c, component=c, nl=nl) for i, (c, nl) in enumerate(self.args)]

    def make(self):
        return Objective(self.J(), self.arg_list())

    def rec(self, tr):
        k, terms = 0, []
        for c, fs in self.terms:
            out = []
            for f in fs:
                k += 1
                out.append(dict(k=f[0], a=f[1] + 1, b=(f[2] if f[0] == 'cross' else f[1]) + 1, w=k))
            terms.append(dict(c=num(c), f=out))
        return dict(args=[dict(c=c, nl=bool(nl)) for c, nl in self.args], terms=terms, w=[tr.A(w) for w in self.W])

    @property
    def linear(self):
        return not any(nl for c, nl in self.args)


def rand_obj(r, args, kinds, scale, sh):
    """kinds: per term a string of factor kinds joined by '*'; scale[c]: size of component c"""
    terms, used = [], []
    unit = (1., 1., 1., 1e-21, 1e9)[r.randint(5)]

    def pick():
        left = [i for i in range(len(args)) if i not in used]
        i = left[r.randint(len(left))] if left else r.randint(len(args))
        used.append(i)
        return i
    for t in kinds:
        fs = []
        for k in t.split('*'):
            sparse = (r.rand(*sh) < .5) if r.rand() < .5 else 1
            a = pick()
            s = scale[args[a][0]]
            if k == 'abs2':
                fs.append(('abs2', a, r.randn(*sh) * sparse / s**2 / sh[0] / sh[1]))
            elif k == 'lin':
                fs.append(('lin', a, (r.randn(*sh) + 1j * r.randn(*sh)) * sparse / s / np.sqrt(sh[0] * sh[1])))
            else:
                b = pick()
                fs.append(('cross', a, b, (r.randn(*sh) + 1j * r.randn(*sh)) * sparse / s / scale[args[b][0]] / sh[0] / sh[1]))
        terms.append((unit * r.choice([-1., 1., 2.5]), fs))
    return Obj(args, terms)


def scales(sim, F=None):
    g = Grid.of(sim)
    F = g.solve(np.array(sim.eps_r), np.array(sim.src)) if F is None else F
    T = g.transverse(F, np.array(sim.eps_r))
    names = ('Hx', 'Hy') if sim.pol == 'Ez' else ('Ex', 'Ey')
    out = {c: 0.0 for c in ('Ex', 'Ey', 'Ez', 'Hx', 'Hy', 'Hz')}
    for c, x in zip(names + (sim.pol,), T + (F,)):
        out[c] = np.abs(x).max()
    big = {'H': max(out[c] for c in ('Hx', 'Hy', 'Hz')), 'E': max(out[c] for c in ('Ex', 'Ey', 'Ez'))}
    for c in names + (sim.pol,):        # a component that vanishes is no scale
        if out[c] < 1e-12 * big[c[0]] or out[c] == 0:
            out[c] = 1.0
    return out


# ---- recorded evaluation ----------------------------------------------------------
def nls_of(tr, o):
    """(chi, reg, scale, emax) of the nonlinearities the driver has added to o"""
    return tr.nls.get(o, []) if hasattr(tr, 'nls') else []


def kerr(tr, o, chi, reg, scale, emax):
    from .session import add_nl
    if not hasattr(tr, 'nls'):
        tr.nls = {}
    add_nl(tr, o, chi, reg, scale, emax)
    tr.nls[o] = tr.nls.get(o, []) + [(chi, reg, scale, emax)]


def nl_converges(sim, nls):
    """does the default nonlinear solve converge without doubt?"""
    g = Grid.of(sim)
    eps, src = np.array(sim.eps_r), np.array(sim.src)
    E = g.solve(eps, src)
    W, c = g.iterate('born', nls, eps, src, E, 1e-11, 14)
    if c and c[-1] < 1e-11:
        return True
    W, c = g.iterate('born', nls, eps, src, E, 1e-11, 20)
    if not np.isfinite(c[-1]) or len(W) != 21:
        return False
    W, c = g.iterate('newton', nls, eps, src, W[-1], 1e-11, 10)
    return bool(c and c[-1] < 1e-11)


def compute_J(tr, o, opt, ob, des=None, ev='compute_J'):
    sim = tr.objs[o]
    return tr.do('compute_J', o, lambda: opt.compute_J(sim), enc=lambda r: {'ret': num(r)}, **ob.rec(tr))


def directions(sim, ob, des, nls, r, n=3, cells=4, base=1e-5):
    """random directions with their tangents at the stored fields; those too badly
    conditioned to be meaningful are dropped"""
    eps, rho = np.array(sim.eps_r), np.array(sim.rho)
    sh = eps.shape
    g = Grid.of(sim)
    need_nl = not ob.linear
    need_lin = any(not nl for c, nl in ob.args)
    out = []
    if des is None:
        return out
    D = [r.randn(*sh) for _ in range(n)]
    for _ in range(cells):
        d = np.zeros(sh)
        k = np.argwhere(des.mask == 1)
        if len(k) and r.rand() < .7:
            d[tuple(k[r.randint(len(k))])] = 1
        else:
            d[r.randint(sh[0]), r.randint(sh[1])] = 1
        D.append(d)
    E, En = sim.fields[sim.pol], sim.fields_nl[sim.pol]
    if (need_lin and E is None) or (need_nl and En is None):
        return out
    # accuracy of the linear solver on this operator
    src = np.array(sim.src)
    acc = 0.
    with np.errstate(all='ignore'):
        if need_lin:
            acc = max(acc, np.abs(g.solve(eps, src) - E).max() / max(np.abs(E).max(), 1e-300))
        if need_nl:
            acc = max(acc, np.abs(g.newton(nls, eps, src, En) - En).max() / max(np.abs(En).max(), 1e-300))
    base = base + 100 * (acc if np.isfinite(acc) else 0.)
    for d in D:
        de = des.dimage(np.real(rho), d)
        D1 = np.where(des.mask == 1, filt(des.mask, des.npml, des.R, d), 0)
        if np.any(D1) and np.abs(de).max() < 1e-4 * np.abs(d).max():
            continue        # saturated projection: the slope is little but rounding errors
        res = []
        for q in (0, 1):
            f = 1 if q == 0 else 1 + 1e-10 * np.random.RandomState(q).randn(*sh)
            tl = g.tangent([], eps * f, E, de) if need_lin else None
            tn = g.tangent(nls, eps * f, En, de) if need_nl else None
            res.append((tl, tn))

        def change(a, b):
            if a is None or not np.any(a):
                return 0.
            x = np.abs(a - b).max() / np.abs(a).max()
            return x if np.isfinite(x) else 1.
        small = 1e-9 * np.abs(de).max()
        if any(t is not None and np.any(de) and np.any(F) and not np.abs(t).max() > small * np.abs(F).max()
               for t, F in zip(res[0], (E, En))):
            continue        # nothing but rounding errors
        tol = base + 1e3 * max(change(res[0][0], res[1][0]), change(res[0][1], res[1][1]))
        if tol > 1e-2:
            continue
        out.append((d, res[0][0], res[0][1], tol))
    return out


def compute_dJ(tr, o, opt, ob, des, r, n=3, cells=4, tol=None):
    sim = tr.objs[o]
    nls = nls_of(tr, o)
    dirs = []

    def enc(ret):
        ds = directions(sim, ob, des, nls, r, n, cells, tol or 1e-4)
        return {'ret': tr.A(ret), 'dirs': [dict(d=tr.A(d), lin=tr.A(a), nl=tr.A(b), tol=num(t)) for d, a, b, t in ds]}
    return tr.do('compute_dJ', o, lambda: opt.compute_dJ(sim, des.mask), enc=enc, des=des.rec(tr), dirs=dirs, ret=0, **ob.rec(tr))


def set_rho(tr, o, rho):
    sim = tr.objs[o]
    tr.own('density', rho)
    tr.do('set_rho', o, lambda: setattr(sim, 'rho', rho), rho=tr.A(rho))


def set_design(tr, o, des, rho):
    """density and the permittivity that is its image"""
    set_rho(tr, o, rho)
    set_eps(tr, o, des.image(rho, np.array(tr.objs[o].eps_r)))
