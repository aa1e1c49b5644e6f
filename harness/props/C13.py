from .scans import *
from .modes import *
from .C07 import setup, add_kerr, rho_of
from .session import rand_probe


def witness(tr, o, name):
    copy_sim(tr, o, name)
    if hasattr(tr, 'nls'):
        tr.nls[name] = list(tr.nls.get(o, []))
    return tr.objs[name]


def few(r, sh):
    m = np.zeros(sh, int)
    for _ in range(r.randint(2, 5)):
        m[r.randint(sh[0]), r.randint(sh[1])] = 1
    return m


def objective(s, r, sim):
    sc = scales(sim)
    args = [(s['a%d' % i], s['n%d' % i]) for i in range(1, s['nargs'] + 1)]
    return rand_obj(r, args, [s['k%d' % i] for i in range(1, s['nterms'] + 1)], sc, (s['Nx'], s['Ny'])), sc


def clear_mode(sim, m):
    """is the requested eigenmode clearly determined, in the structure and in the straight guide?"""
    k0 = sim.omega / C0
    for eps in (np.array(sim.eps_r), norm_eps(m, np.array(sim.eps_r))):
        w, v = spectrum(sim, m, eps)
        d = np.abs(w * sim.dl**2 - (m['neff'] * k0 * float(sim.L0) * sim.dl)**2)
        k = np.argsort(d)[m['order'] - 1]
        big = np.abs(w * sim.dl**2).max()
        if np.any(np.abs(np.imag(v[k])) > 1e-9) or any(
                abs(d[j] - d[k]) < 1e-2 * d[k] + 1e-4 * big or abs(w[j] - w[k]) * sim.dl**2 < 1e-3 * big for j in range(len(w)) if j != k):
            return False
    return True


def carries(sim, m, s):
    """does the mode carry power in its straight guide (rather than stand)?"""
    eps = norm_eps(m, np.array(sim.eps_r))
    g = Grid.of(sim)
    w, v = spectrum(sim, m, eps)
    k0 = sim.omega / C0 * float(sim.L0)
    k = np.argsort(np.abs(w - (m['neff'] * k0)**2))[m['order'] - 1]
    src = np.zeros(eps.shape)
    line(m, src)[...] = sim.modes[0].scale * np.real(v[k])
    F = g.solve(eps, src)
    size = float(sim.dl) * np.linalg.norm(F) * sum(np.linalg.norm(T) for T in g.transverse(F, eps))
    return abs(sim.W_in) > 1e-3 * size


def slow(tr, o, t, least, most):
    """strengthen the nonlinearity until the first stage of the hybrid solver needs more than its 100 steps"""
    g = Grid.of(t)
    eps, src = np.array(t.eps_r), np.array(t.src)
    E = g.solve(eps, src)
    lo, hi, f = 1., None, 1.
    for _ in range(20):
        nls = [(n[0] * f,) + tuple(n[1:]) for n in nls_of(tr, o)]
        c = g.iterate('born', nls, eps, src, E, 1e-12, 100)[1]
        if len(c) == 100 and least < c[-1] < most:
            break
        if c[-1] <= least:
            lo = f
            f = 2 * f if hi is None else (lo + hi) / 2
        else:
            hi = f
            f = (lo + hi) / 2
    else:
        return False
    tr.do('clear_nl', o, lambda: setattr(tr.objs[o], 'nonlinearity', []))
    tr.nls[o] = []
    for n in nls:
        kerr(tr, o, *n)


def stages(sim, nls):
    """do both stages of the hybrid solver lead to the same fields, beyond doubt?"""
    g = Grid.of(sim)
    eps, src = np.array(sim.eps_r), np.array(sim.src)
    E = g.solve(eps, src)
    W, c = g.iterate('born', nls, eps, src, E, 1e-11, 100)
    V, d = g.iterate('newton', nls, eps, src, E, 1e-11, 30)
    if len(W) != len(c) + 1 or len(V) != len(d) + 1 or d[-1] > 1e-11:
        return False
    return c[-1] > 1e-9 or np.linalg.norm(W[-1] - V[-1]) < 1e-8 * np.linalg.norm(V[-1])


def power(s, tr, r):
    if s['pol'] == 'Hz':
        s = dict(s, solver='born')       # the others are for Ez only
    sh = (s['Nx'], s['Ny'])
    if new_sim(tr, 'a', s, eps_of(s['epsk'], sh, r)) is None:
        return
    sim = tr.objs['a']
    m = mode_of(s, 'a')
    if not clear_mode(sim, m):
        return
    add_mode(tr, 'a', m)
    if s['two']:
        add_mode(tr, 'a', dict(m, scale=3., neff=1.5))
    if s['pre'] != 'none' and not s['two']:
        setup_modes(tr, 'a', [m])
    if s['pre'] == 'solve':
        solve(tr, 'a')
    des = Design(np.ones(sh, int), [s['npx'], s['npy']], 0, .5, 1e-9, 12.25)
    ob = Obj([(s['pol'], False)], [(1., [('abs2', 0, np.ones(sh))])])
    opt = des.opt(tr, ob.make(), sim)
    smin, smax = float(s['smin']), float(s['smax'])
    t = copy.deepcopy(sim)
    t.modes[0].scale = smax if s['ns'] > 1 else smin
    t.modes[0].setup_src(t)
    t.solve_fields()
    if not carries(t, m, s):
        return
    if s['pol'] == 'Ez':
        s = dict(s, mask='all')
        add_kerr(s, tr, 'a', des, r, np.abs(t.fields['Ez']).max())
        if s['prog'] == 'slow':
            slow(tr, 'a', t, *[(1e-9, 1e-6), (1e-6, 1e-5), (1e-5, 1e-4), (1e-4, 1e-2)][r.randint(4)])
    probes = []
    for k in range(s['probes']):
        if k == 2:
            probes.append('count')
        else:
            d = r.choice(['x', 'y'])
            c, w = rand_probe(r, sh, d)
            probes.append((str(d), c, w, bool(r.rand() < .7) or s['prog'] == 'slow'))
    objs = []
    S = np.logspace(np.log10(smin), np.log10(smax), s['ns'])
    if probes:
        for k, x in enumerate(S):
            name = 'p%d' % k
            w = witness(tr, 'a', name)
            w.modes[0].scale = x
            tr.rec('scale_mode', name, scale=num(x))
            wit = []
            v = spectrum(w, m)
            tr.do('setup_modes', name, lambda: w.modes[0].setup_src(w), wit=[dict(vals=tr.S(v[0]), vecs=tr.A(v[1]))], cnt=1)
            # (the witness is the converged field, whatever solver found it)
            ok = True
            solve(tr, name)
            n0 = len(tr.ev)
            nl = nls_of(tr, name)
            if nl:
                h = solve_nl(tr, name, 'born', thr=1e-10, maxit=100) if s['solver'] == 'born' else \
                    solve_nl(tr, name, 'newton', thr=1e-10, maxit=100)
                ok = h is not None and np.any(np.array(h[3]) < 1e-10)
                if s['solver'] == 'hybrid':
                    ok = ok and stages(w, nl)
            else:
                solve_nl(tr, name, 'born')
            forget(tr, name)
            if ok:
                objs.append(dict(o=name, k=k + 1, scale=num(x)))
    scan_power(tr, 'a', opt, probes, s['ns'], smin, smax, s['solver'], objs, [m])
    if s['again']:
        scan_power(tr, 'a', opt, probes, s['ns'], smin, smax, s['solver'], objs, [m])


def freq(s, tr, r, des):
    ob, sc = objective(s, r, tr.objs['a'])
    if s['pol'] == 'Ez':
        add_kerr(s, tr, 'a', des, r, sc['Ez'])
    sim = tr.objs['a']
    opt = des.opt(tr, ob.make(), sim)
    if s['pre'] == 'J' and sure(sim, nls_of(tr, 'a')):
        compute_J(tr, 'a', opt, ob)
    elif s['pre'] == 'solve':
        solve(tr, 'a')
    if s['two'] and min(sim.Nx, sim.Ny) > 3:        # modes that were defined but not set up are no sources
        add_mode(tr, 'a', dict(mode_of(s, 'a'), w=3, c=[sim.Nx // 2, sim.Ny // 2]))
    nf, df = s['nf'], float(s['df'])
    om = float(sim.omega)
    names = []
    for k, f in enumerate(np.linspace(om - om * df / 2, om + om * df / 2, nf)):
        name = 'f%d' % k
        w = witness(tr, 'a', name)
        set_om(tr, name, float(f))
        set_eps(tr, name, np.array(sim.eps_r))
        if not ob.linear and nls_of(tr, name) and not nl_converges(w, nls_of(tr, name)):
            names = []
            forget(tr, name)
            break
        compute_J(tr, name, fresh(tr, name, ob, des), ob)
        names.append(name)
        forget(tr, name)
    scan_frequency(tr, 'a', opt, nf, df, names)
    if s['again']:
        scan_frequency(tr, 'a', opt, nf, df, names)
    if ob.linear or sure(sim, nls_of(tr, 'a')):
        compute_J(tr, 'a', opt, ob)


def deriv(s, tr, r, des):
    ob, sc = objective(s, r, tr.objs['a'])
    sim = tr.objs['a']
    if s['pol'] == 'Ez':
        add_kerr(s, tr, 'a', des, r, sc['Ez'])
    nls = nls_of(tr, 'a')
    if not ob.linear and nls and not nl_converges(sim, nls):
        return
    opt = des.opt(tr, ob.make(), sim)
    if s['pre'] == 'J':
        compute_J(tr, 'a', opt, ob)
    elif s['pre'] == 'dJ':
        compute_dJ(tr, 'a', opt, ob, des, r, n=1, cells=1)
    elif s['pre'] == 'solve':
        solve(tr, 'a')
    drho = float(s['drho'])
    witness(tr, 'a', 'b')
    compute_J(tr, 'b', fresh(tr, 'b', ob, des), ob)
    compute_dJ(tr, 'b', fresh(tr, 'b', ob, des), ob, des, r, n=1, cells=1)
    forget(tr, 'b')
    cells, base = [], 'b'
    for i, j in np.argwhere(des.mask == 1):
        name = 'd%d_%d' % (i, j)
        w = witness(tr, 'a', name)
        rho = np.array(sim.rho)
        rho[i, j] += drho
        set_design(tr, name, des, rho)
        if not ob.linear and nls and not nl_converges(w, nls):
            base = ''
            forget(tr, name)
            break
        compute_J(tr, name, fresh(tr, name, ob, des), ob)
        cells.append(dict(o=name, i=int(i) + 1, j=int(j) + 1))
        forget(tr, name)
    if not base:
        return
    check_deriv(tr, 'a', opt, des, s['npts'], drho, base, cells)
    if s['again']:
        check_deriv(tr, 'a', opt, des, s['npts'], drho, base, cells)
    if ob.linear or sure(sim, nls):
        compute_J(tr, 'a', opt, ob)


def run(s, tr):
    r = rng(s)
    if s['prog'] in ('power', 'slow'):
        return power(s, tr, r)
    import props.C07 as C07
    sh = (s['Nx'], s['Ny'])
    if new_sim(tr, 'a', s, eps_of(s['epsk'], sh, r)) is None:
        return
    set_src(tr, 'a', src_of(s['srck'], sh, r))
    mask = few(r, sh) if s['mask'] == 'few' else C07.mask_of(s['mask'], 'int', sh, r)
    des = Design(mask, [s['npx'], s['npy']], s['R'], float(s['eta']), float(s['beta']), float(s['epsm']))
    set_design(tr, 'a', des, rho_of(s['rhok'], sh, r))
    (freq if s['prog'] == 'freq' else deriv)(s, tr, r, des)
