"""Turning configurations chosen by the generators into concrete inputs."""
import numpy as np
from angler import Simulation

C0 = 299792458.0


def rng(s, salt=0):
    return np.random.RandomState((int(s.get('seed', 1)) * 7919 + salt * 104729) % (2**31))


def omega(s):
    return 2 * np.pi * C0 / (float(s['wl']) * 1e-6)


def dl(s):
    return float(s['wl']) * 1e-6 / float(s['L0']) / s['res']


def guide_eps(kind, sh, r):
    """straight or crossed waveguides in vacuum (as far as they fit)"""
    e = np.ones(sh)
    w = [r.randint(1, 1 + max(1, min(4, n - 1))) for n in sh]
    j = r.randint(0, max(1, sh[1] - w[1]))
    i = r.randint(0, max(1, sh[0] - w[0]))
    both = kind == 'cross' or r.rand() < .2
    if both or r.rand() < .6:
        e[:, j:j + w[1]] = r.choice([2.25, 6., 12.25])
        both = both or 2
    if both != 2:
        e[i:i + w[0], :] = r.choice([4., 12.25])
    return e


def eps_of(kind, sh, r):
    Nx, Ny = sh
    if kind == 'ones':
        return np.ones(sh)
    if kind in ('guide', 'cross'):
        return guide_eps(kind, sh, r)
    if kind == 'real':
        return 1 + 11 * r.rand(*sh)
    if kind == 'steps':
        return np.where(r.rand(*sh) < .5, 1.0, 12.25)
    if kind == 'int':
        return r.randint(1, 6, size=sh)
    if kind == 'lossy':
        return 1 + 5 * r.rand(*sh) - 1j * r.rand(*sh)
    if kind == 'complex':
        return 1 + 5 * r.rand(*sh) + 1j * (r.rand(*sh) - .5)
    if kind == 'metal':
        return np.where(r.rand(*sh) < .7, 2.0, -10 - 1j * r.rand(*sh))
    if kind == 'thin':          # barely denser than vacuum
        return np.where(r.rand(*sh) < .2, 1.0, 1 + .05 * r.rand(*sh))
    raise ValueError(kind)


def src_of(kind, sh, r, amp=1.0):
    Nx, Ny = sh
    s = np.zeros(sh, dtype=np.complex128)
    if kind == 'zero':
        return s
    if kind == 'point':
        s[r.randint(Nx), r.randint(Ny)] = amp
    elif kind == 'line':
        s[r.randint(Nx), :] = amp * np.exp(1j * r.rand())
    elif kind in ('random', 'faint', 'tiny', 'strong'):
        amp = amp * {'random': 1, 'faint': 1e-9, 'tiny': 1e-27, 'strong': 1e7}[kind]
        s = amp * (r.randn(*sh) + 1j * r.randn(*sh))
    elif kind == 'real':
        return amp * r.randn(*sh)
    return s


UNSET = object()


def new_sim(tr, o, s, eps, om=None, npml=UNSET, pol=UNSET, L0=None):
    """construct, recording the arguments; returns the object or None"""
    om = omega(s) if om is None else om
    npml = [s['npx'], s['npy']] if npml is UNSET else npml
    pol = s['pol'] if pol is UNSET else pol
    L0, d = float(s['L0']) if L0 is None else L0, dl(s)
    tr.own('eps of ' + o, eps)
    tr.own('NPML of ' + o, npml)
    from rec import num
    eps2 = eps.reshape((-1, 1)) if eps.ndim == 1 else eps
    args = dict(om=num(om), dl=num(d), L0=num(L0), npList=isinstance(npml, list), npv=tr.S(npml if npml is not None else []), pol=str(pol),
                Nx=int(eps2.shape[0]), Ny=int(eps2.shape[1]), eps=tr.A(eps2))
    sim, exc = tr.call(lambda: Simulation(om, eps, d, npml, pol, L0=L0))
    if exc == '':
        tr.objs[o] = sim
    e = tr.rec('new', o, args=args)
    e['exc'] = exc
    return sim


def set_eps(tr, o, eps):
    sim = tr.objs[o]
    tr.own('eps of ' + o, eps)
    eps2 = eps.reshape((-1, 1)) if eps.ndim == 1 else eps
    tr.do('set_eps', o, lambda: setattr(sim, 'eps_r', eps), eps=tr.A(eps2))


def set_src(tr, o, src):
    sim = tr.objs[o]
    tr.own('src of ' + o, src)
    tr.do('set_src', o, lambda: setattr(sim, 'src', src), src=tr.A(src))


def poke_src(tr, o, fn):
    """change the source array in place (a copy of it, where it belongs to the caller)"""
    sim = tr.objs[o]
    if sim.src.dtype != np.complex128 or any(w[1] is sim.src for w in tr.watched) or any(
            s.src is sim.src for n, s in tr.objs.items() if n != o):
        sim.src = np.array(sim.src, dtype=complex)
    fn(sim.src)
    tr.rec('set_src', o, src=tr.A(sim.src))


def set_om(tr, o, om):
    from rec import num
    sim = tr.objs[o]
    tr.do('set_om', o, lambda: setattr(sim, 'omega', om), om=num(om))


def solve(tr, o, avg=False):
    sim = tr.objs[o]
    return tr.do('solve', o, lambda: sim.solve_fields(averaging=True) if avg else sim.solve_fields(),
                 enc=lambda r: {'ret': [tr.A(x) for x in r]}, avg=bool(avg))


def solve_nl(tr, o, solver=None, start=None, thr=None, maxit=None, must=False, wit=(), wkind='', lim=None, lvl=1e-5):
    sim = tr.objs[o]
    from rec import num
    kw = {}
    if solver is not None:
        kw['solver_nl'] = solver
    if start is not None:
        kw['Estart'] = tr.own('starting field', start)
    if thr is not None:
        kw['conv_threshold'] = thr
    if maxit is not None:
        kw['max_num_iter'] = maxit
    return tr.do('solve_nl', o, lambda: sim.solve_fields_nl(**kw),
                 enc=lambda r: {'ret': [tr.A(x) for x in r[:3]], 'conv': tr.S(r[3])},
                 solver=solver or 'hybrid', start=tr.A(start), thr=num(1e-10 if thr is None else thr),
                 maxit=lim or (20 if solver in (None, 'hybrid') else 50 if maxit is None else maxit), wkind=wkind or solver or 'hybrid', mustConverge=bool(must), lvl=num(lvl), wit=[tr.A(w) for w in wit])


def copy_sim(tr, o, o2):
    import copy
    r, exc = tr.call(lambda: copy.deepcopy(tr.objs[o]))
    if exc == '':
        tr.objs[o2] = r
    e = tr.rec('copy', o, o2=o2)
    e['exc'] = exc
    if exc == '':
        e['obs2'] = tr.obs(r)
    return r
