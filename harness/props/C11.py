from .runs import *
from .C07 import setup, add_kerr
from .C19 import mask_of
from .session import init_design


def run(s, tr):
    r = rng(s)
    sh = (s['Nx'], s['Ny'])
    if s['start'] != 'set' and (s['R'] or s['rhok'] == 'free') and s['epsk'] == 'lossy':
        s = dict(s, epsk='real')        # a filter is an average of real densities
    des = setup(s, tr, r)
    if des is None:
        return
    sim = tr.objs['a']
    if s['rhok'] == 'free' and s['start'] == 'fresh':
        return
    if s['start'] == 'init':
        init_design(tr, 'a', des.mask, des.epsm, s['style'])
    elif s['start'] == 'fresh':          # an object whose density was never set
        e = np.array(sim.eps_r)
        if s['epsk'] == 'int':
            e = np.maximum(1, np.floor(e)).astype(int)
        forget(tr, 'a')
        if new_sim(tr, 'a', s, e) is None:
            return
        sim = tr.objs['a']
        set_src(tr, 'a', src_of(s['srck'], sh, r))
    sc = scales(sim)
    if s['pol'] == 'Ez':
        add_kerr(s, tr, 'a', des, r, sc[s['pol']])
    nls = nls_of(tr, 'a')
    args = [(s['a%d' % i], s['n%d' % i] and s['pol'] == 'Ez') for i in range(1, s['nargs'] + 1)]
    if nls and not nl_converges(sim, nls):
        return
    ob = rand_obj(r, args, [s['k%d' % i] for i in range(1, s['nterms'] + 1)], sc, sh)
    limit = None
    if s['limit'] != 'none' and nls and np.all(np.real(sim.eps_r) > 0):
        dn = np.max(copy.deepcopy(sim).compute_index_shift())
        if np.isfinite(dn) and dn > 0:
            limit = float(s['limit']) * float(dn)
    opt = des.opt(tr, ob.make(), sim, max_ind_shift=limit)
    t, t2 = copy.deepcopy((opt, sim))
    with np.errstate(all='ignore'):
        t.run('GD', Nsteps=0)
        G = np.abs(t.compute_dJ(t2, des.mask)[des.mask == 1])
    g = G.max() if len(G) else 0
    if not np.isfinite(g) or g == 0:
        return

    def step_of(m):
        return float(s['step']) if m.lower() == 'adam' else float(s['gstep']) / g
    m = s['method']
    b1, b2 = (.9, .999) if s['betas'] == 'default' else (.5, .8)
    bb = (None, None) if s['betas'] == 'default' else (b1, b2)
    if m.lower() not in ('lbfgs', 'gd', 'adam'):
        run_opt(tr, 'a', opt, des, m, 2, .1, limit=limit)
        return
    if s['pre'] == 'J':
        compute_J(tr, 'a', opt, ob)
    elif s['pre'] == 'run':
        run_opt(tr, 'a', opt, des, s['method2'], 1, step_of(s['method2']), limit=limit)
        if not sure(sim, nls):
            return
    trajectory(tr, 'a', opt, ob, des, r, m, s['K'], step_of(m), *bb, limit=limit)
    run_opt(tr, 'a', opt, des, m, s['K'], step_of(m), *bb, limit=limit)
    if sure(sim, nls) and s['post'] != 'none':
        compute_J(tr, 'a', opt, ob)
    if s['post'] == 'run':
        run_opt(tr, 'a', opt, des, s['method2'], 2, step_of(s['method2']), limit=limit)
        if sure(sim, nls):
            compute_J(tr, 'a', opt, ob)
    curve(tr, opt, s['norm'])
