from fdfd import Grid
from .common import *
from .session import add_nl
from rec import num


def method(g, kind, nls, eps, src, E0, thr, lim):
    """(kind of the reported iterations, iterates, relative changes); no iterates if undecidable"""
    if kind != 'hybrid':
        W, c = g.iterate(kind, nls, eps, src, E0, thr, lim)
        return (kind, W, c) if len(W) == len(c) + 1 else (kind, [], c)
    W, c = g.iterate('born', nls, eps, src, E0, thr, 20)
    if len(W) != len(c) + 1:
        return kind, [], c
    if len(c) < 20 or c[-1] < .5 * min(thr, 1e-10):
        return 'born', W, c
    if c[-1] < 2 * max(thr, 1e-10):
        return kind, [], c
    W, c = g.iterate('newton', nls, eps, src, W[-1], thr, 20)
    return ('newton', W, c) if len(W) == len(c) + 1 else (kind, [], c)


def settles(g, kind, nls, eps, src, E0, thr, lim):
    """does the method reach its threshold with a wide margin, whatever the last digits?"""
    for p in range(3):
        q = np.random.RandomState(p + 7)
        k, W, c = method(g, kind, nls, eps * (1 + (1e-9 if p else 0) * q.randn(*E0.shape)), src, E0, 1e-3 * thr if kind != 'hybrid' else max(1e-3 * thr, 1e-14), lim)
        if not W or not c[-1] < 1e-3 * max(thr, 1e-11):
            return False
    return True


def one(s, tr, i, nls, r):
    sim = tr.objs['a']
    sol, t, it, st = s['s%d' % i], s['t%d' % i], s['i%d' % i], s['st%d' % i]
    g = Grid.of(sim)
    eps, src = np.array(sim.eps_r), np.array(sim.src)
    lin = g.solve(eps, src)
    m = np.abs(lin).max()
    start = {'none': None, 'linear': lin, 'random': m * (r.randn(*lin.shape) + 1j * r.randn(*lin.shape)),
             'near': lin * (1 + .01 * r.randn(*lin.shape)), 'zero': np.zeros(lin.shape, complex)}[st]
    E0 = start if start is not None else (lin if sim.fields['Ez'] is None else np.array(sim.fields['Ez']))
    thr = 1e-10 if t == 'default' else float(t)
    kind = 'hybrid' if sol == 'default' else sol
    maxit = it or 50
    lim = 20 if kind == 'hybrid' else maxit
    big = lin.size > 400        # no witness
    wkind, wit, c = (kind, [], []) if big else method(g, kind, nls, eps, src, E0, thr, lim)
    must, lvl = False, 1e-5
    if not big and settles(g, kind, nls, eps, src, E0, thr, lim):
        must, lvl = True, 100 * max(thr, 1e-12)
    if kind == 'hybrid' and thr < 1e-6:      # which of the two histories is reported depends on the last digits
        wit = []
    if wit:
        # drop the witness where rounding errors would show (chaotic or ill-conditioned iterations)
        for p in range(3):
            q = np.random.RandomState(p)
            wk, W, d = method(g, kind, nls, eps * (1 + 1e-11 * q.randn(*lin.shape)), src, E0, thr, lim)
            if wk != wkind or len(d) != len(c) or any(abs(x - y) > 1e-3 * y + 1e-10 for x, y in zip(c, d)) \
                    or any(np.abs(a - b).max() > 1e-7 * np.abs(a).max() for a, b in zip(wit, W)):
                wit = []
                break
        must = must or bool(wit and c[-1] < .5 * thr)
    solve_nl(tr, 'a', None if sol == 'default' else sol, start=start, thr=None if t == 'default' else thr,
             maxit=it or None, must=must, wit=wit, wkind=wkind, lim=lim, lvl=lvl)


def run(s, tr):
    r = rng(s)
    sh = (s['Nx'], s['Ny'])
    eps = eps_of(s['epsk'], sh, r)
    if new_sim(tr, 'a', s, eps) is None:
        return
    sim = tr.objs['a']
    set_src(tr, 'a', src_of(s['srck'], sh, r))
    lin = Grid.of(sim).solve(np.array(sim.eps_r), np.array(sim.src))
    m2 = np.abs(lin).max()**2
    nls = []

    def add():
        sc = s['scale%d' % (1 + len(nls) % 2)]
        reg = {'all': np.ones(sh), 'part': (r.rand(*sh) < .6).astype(int), 'frac': r.rand(*sh)}[s['reg']]
        chi = float(s['chi']) * float(s['L0'])**2 / 3 / m2
        add_nl(tr, 'a', chi, reg, sc, 12.25)
        nls.append((chi, reg, sc, 12.25))
    for _ in range(s['nnl']):
        add()
    one(s, tr, 1, nls, r)
    b = s['between']
    if b == 'src':
        set_src(tr, 'a', src_of('random', sh, r))
    elif b == 'eps':
        set_eps(tr, 'a', eps_of('lossy', sh, r))
    elif b == 'solve':
        solve(tr, 'a')
    elif b == 'add':
        add()
    elif b == 'clear':
        tr.do('clear_nl', 'a', lambda: setattr(sim, 'nonlinearity', []))
        del nls[:]
    elif b == 'compute_nl':
        e = src_of('random', sh, r) * np.sqrt(m2)
        tr.do('compute_nl', 'a', lambda: sim.compute_nl(e), e=tr.A(e))
    one(s, tr, 2, nls, r)
    one(s, tr, 3, nls, r)
