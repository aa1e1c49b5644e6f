from .common import *
from .session import init_design


def mask_of(kind, dt, sh, r):
    m = np.zeros(sh)
    if kind == 'all':
        m[:] = 1
    elif kind == 'random':
        m[r.rand(*sh) < .5] = 1
    elif kind == 'single':
        m[r.randint(sh[0]), r.randint(sh[1])] = 1
    elif kind == 'block':
        i, j = r.randint(sh[0]), r.randint(sh[1])
        m[i:i + 3, j:j + 4] = 1
    elif kind == 'sym':
        m[r.rand(*sh) < .4] = 1
        m = np.maximum(m, m[:, ::-1])
    return m.astype({'int': int, 'float': float, 'bool': bool}[dt])


def run(s, tr):
    r = rng(s)
    sh = (s['Nx'], s['Ny'])
    eps = eps_of(s['epsk'], sh, r)
    if s['oneD']:
        eps = eps[:, 0].copy()
    if new_sim(tr, 'a', s, eps) is None:
        return
    set_src(tr, 'a', src_of(s['srck'], sh, r))
    for i in (1, 2, 3):
        y = s['y%d' % i]
        e = float(s['e%d' % i])
        m = mask_of(s['m%d' % i], s['d%d' % i], sh, r)
        init_design(tr, 'a', m, int(e) if e == int(e) else e, '' if y == 'none' else y, default=y == 'none')
        if i == 3:
            break
        b = s['b%d' % i]
        if b == 'solve':
            solve(tr, 'a')
        elif b == 'solve_nl':
            solve_nl(tr, 'a', 'born')
        elif b == 'copy':
            copy_sim(tr, 'a', 'c%d' % i)
        elif b == 'eps':
            set_eps(tr, 'a', eps_of('real', sh, r))
