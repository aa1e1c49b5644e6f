from .opt import *
from .C19 import mask_of
from .C07 import rho_of
from angler.filter import (get_W, rho2rhot, rhot2rhob, rhob2eps, eps2rho, rho2eps, drhot_drho, drhob_drhot, deps_drhob)


def run(s, tr):
    r = rng(s)
    sh = (s['Nx'], s['Ny'])
    N = sh[0] * sh[1]
    np_ = [s['npx'], s['npy']]
    eta, beta, epsm, R = float(s['eta']), float(s['beta']), float(s['epsm']), s['R']
    mask = tr.own('design mask', mask_of(s['mask'], s['mdt'], sh, r))
    if s['other']:          # the filter of another design of as many cells comes first
        m2 = np.roll(mask[::-1, :], 1, axis=1)
        W2, exc = tr.call(lambda: get_W(sh[0], sh[1], m2, np_, R=R))
        if exc == '':
            x2 = r.rand(*sh)
            tr.do('filter', None, lambda: rho2rhot(x2, W2), enc=lambda y: {'ret': tr.A(np.reshape(y, sh))}, x=tr.A(x2), ret=0,
                  mask=tr.A(m2), np=np_, R=R, eta=num(eta), beta=num(beta), epsm=num(epsm))
    if s['how'] == 'get_W':
        W, exc = tr.call(lambda: get_W(sh[0], sh[1], mask, np_, R=R))
    else:
        sim = Simulation(2e14, np.ones(sh), .1, np_, 'Ez')
        R = 0 if s['how'] == 'none' else R
        o, exc = tr.call(lambda: Optimization(None, sim, mask, eps_m=epsm, R=R or None, eta=eta, beta=beta))
        W = o.W if o is not None else None
    des = dict(mask=tr.A(mask), np=np_, R=R, eta=num(eta), beta=num(beta), epsm=num(epsm))
    sc = dict(eta=num(eta), beta=num(beta), epsm=num(epsm))

    def ev(name, x, fn, kw):
        x = tr.own('argument of ' + name, np.array(x))
        return tr.do(name, None, lambda: fn(x), enc=lambda y: {'ret': tr.A(np.reshape(y, sh) if np.size(y) == N else y)}, x=tr.A(x), ret=0, **kw)

    rho = rho_of(s['rhok'], sh, r)
    if s['rhok2'] == 'impulse':
        rho2 = np.zeros(sh)
        rho2[r.randint(sh[0]), r.randint(sh[1])] = 1
    else:
        rho2 = rho_of(s['rhok2'], sh, r)
    if exc:
        tr.do('filter', None, lambda: 1 / 0, x=tr.A(rho), ret=0, **des)
        return
    t = ev('filter', rho, lambda x: rho2rhot(x, W), des)
    ev('filter', rho2, lambda x: rho2rhot(x, W), des)
    ev('filter', r.randn(*sh) + 1j * r.randn(*sh), lambda x: rho2rhot(x, W), des)
    ev('image', rho, lambda x: rho2eps(x, epsm, W, eta=eta, beta=beta), des)
    ev('image', rho2, lambda x: rho2eps(x, eps_m=epsm, W=W, eta=eta, beta=beta), des)
    ev('dfilter', r.randn(*sh), lambda x: drhot_drho(W).dot(x.reshape((-1,))), des)
    x = r.rand(*sh)
    x[r.rand(*sh) < .15] = 0
    x[r.rand(*sh) < .15] = 1
    x[r.rand(*sh) < .2] = eta
    for y in (x, rho if t is None else t):
        ev('project', y, lambda x: rhot2rhob(x, eta=eta, beta=beta), sc)
        ev('dproject', y, lambda x: drhob_drhot(x, eta=eta, beta=beta), sc)
    ev('material', x, lambda x: rhob2eps(x, epsm), sc)
    e = 1 + 11 * r.rand(*sh) - 1j * (r.rand(*sh) < .3)
    ev('density', e, lambda x: eps2rho(x, epsm), sc)
    ev('dmaterial', x, lambda x: np.asarray(deps_drhob(x, epsm)), sc)
    ev('there_and_back', x, lambda x: eps2rho(rhob2eps(x, epsm), epsm), sc)
    ev('there_and_back', e, lambda x: rhob2eps(eps2rho(x, epsm), epsm), sc)
