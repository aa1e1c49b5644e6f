"""Binarized objectives."""
import autograd.numpy as npa
from autograd import grad
from angler.utils import Binarizer, eps2rho_bar, rho_bar2eps, deps_drho_bar, rho_bar, drho_bar_drho
from .C19 import mask_of
from .common import *
from rec import num


def run(s, tr):
    r = rng(s)
    if s['op'] == 'util':
        return util(s, tr, r)
    sh = (s['Nx'], s['Ny'])
    m = float(s['epsm'])
    mask = mask_of(s['mask'], s['maskt'], sh, r)
    if not mask.any():
        mask[0, 0] = 1
    tr.own('mask', mask)
    rho = {'binary': (r.rand(*sh) < .5).astype(float), 'gray': r.rand(*sh), 'nearly': (r.rand(*sh) < .5) * .98 + .01, 'empty': np.zeros(sh),
           'full': np.ones(sh), 'half': np.full(sh, .5), 'above': 1.5 * r.rand(*sh) - .1, 'oneoff': (r.rand(*sh) < .5).astype(float)}[s['epsk']]
    if s['epsk'] == 'oneoff':
        i, j = np.argwhere(mask == 1)[0]
        rho[i, j] = .3
    E, N = (r.randn(*sh) + 1j * r.randn(*sh) for _ in 'ab')
    w = r.randn(*sh)
    J = {'abs2': lambda e, n, eps: npa.sum(npa.square(npa.abs(e))),
         'mixed': lambda e, n, eps: npa.sum(w * npa.abs(e)) - 2 * npa.sum(npa.square(npa.abs(n))),
         'eps': lambda e, n, eps: npa.sum(w * eps * npa.abs(e)**2) + npa.sum(npa.real(n)),
         'const': lambda e, n, eps: 3. + 0 * npa.sum(npa.abs(e))}[s['J']]
    kw = {} if s['cst'] == 'default' else {'exp_const': float(s['cst'])}
    b = Binarizer(mask, m, **kw)
    how = s['deco']
    if how == 'shared':         # other uses of the same decorators before and after
        Binarizer(1 - mask, 2 * m, exp_const=7.).density(J)
        getattr(b, {'density': 'smoothness', 'smoothness': 'density_exp', 'density_exp': 'density'}[s['kind']])(lambda e, n, eps: npa.sum(eps))
    elif how == 'nested':
        J = getattr(b, {'density': 'smoothness', 'smoothness': 'density_exp', 'density_exp': 'density'}[s['kind']])(J)
    elif how == 'four':         # an objective with a further argument
        J3, c = J, r.randn(*sh)
        J = lambda e, n, eps, x: J3(e, n, eps) + npa.sum(c * x)
    if how == 'deco':
        @getattr(b, s['kind'])
        def B(e, n, eps):
            return J(e, n, eps)
    else:
        B = getattr(b, s['kind'])(J)
    if how == 'shared':
        getattr(b, s['kind'])(lambda e, n, eps: 5 * npa.sum(eps))
        getattr(Binarizer(1 - mask, 2 * m, exp_const=7.), s['kind'])(J)
    for turn in range(2):
        eps = 1 + rho * (m - 1)
        args = [tr.own(k, x) for k, x in zip(('field', 'nonlinear field', 'eps'), (E, N, eps))] + ([r.randn(*sh)] if how == 'four' else [])

        def D(f):
            out = []
            for k in range(3):
                try:
                    g = grad(f, k)(*args)
                except Exception:
                    if f is J:          # does not depend on it
                        g = np.zeros(sh)
                    else:
                        raise
                out.append(tr.A(np.asarray(g) * np.ones(sh)))
            return out
        base = (J(*args), D(J))
        x, exc = tr.call(lambda: (B(*args), D(B)))
        e = tr.rec('binarize', None, kind=s['kind'], mask=tr.A(mask), eps=tr.A(eps), epsm=num(m), cst=num(kw.get('exp_const', 1)),
                   J=num(base[0]), dJ=base[1], ret=num(x[0]) if x else '', dret=x[1] if x else [])
        e['exc'] = exc
        if s['eps2'] == 'none':
            break
        rho = np.array(rho)
        k = np.argwhere((mask == 0) if s['eps2'] == 'outside' else (mask == 1))
        if len(k):
            rho[tuple(k[r.randint(len(k))])] += .37


def util(s, tr, r):
    f = {'eps2rho_bar': eps2rho_bar, 'rho_bar2eps': rho_bar2eps, 'deps_drho_bar': deps_drho_bar, 'rho_bar': rho_bar, 'drho_bar_drho': drho_bar_drho}[s['f']]
    m, eta, beta = float(s['epsm']), float(s['eta']), float(s['beta'])
    x = 1.6 * r.rand(s['Nx'], s['Ny']) - .3
    if s['f'] in ('eps2rho_bar', 'deps_drho_bar'):
        x = 1 + x * (m - 1)
    tr.own('x', x)
    if s['f'] in ('rho_bar', 'drho_bar_drho'):
        y, exc = tr.call(lambda: f(x, eta=eta, beta=beta))
    else:
        y, exc = tr.call(lambda: f(x, m))
    e = tr.rec('util', None, f=s['f'], epsm=num(m), eta=num(eta), beta=num(beta), x=tr.S(x), ret=tr.S(np.asarray(y) * np.ones(x.shape)) if exc == '' else [])
    e['exc'] = exc
