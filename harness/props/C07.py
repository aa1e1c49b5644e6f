from .opt import *
from .C19 import mask_of


def rho_of(kind, sh, r):
    return {'random': r.rand(*sh), 'binary': (r.rand(*sh) < .5).astype(float), 'half': np.full(sh, .5),
            'gray': .4 + .2 * r.rand(*sh), 'free': r.rand(*sh),
            'beyond': 1.35 * r.rand(*sh) - .05}[kind]


def setup(s, tr, r, o='a'):
    """simulation, design and density of a scenario"""
    sh = (s['Nx'], s['Ny'])
    if new_sim(tr, o, s, eps_of(s['epsk'], sh, r)) is None:
        return None
    set_src(tr, o, src_of(s['srck'], sh, r))
    mask = mask_of(s['mask'], 'int', sh, r)
    des = Design(mask, [s['npx'], s['npy']], s['R'], float(s['eta']), float(s['beta']), float(s['epsm']))
    rho = rho_of(s['rhok'], sh, r)
    if s['rhok'] == 'free':          # density and permittivity set by hand, unrelated to each other
        set_rho(tr, o, rho)
    else:
        set_design(tr, o, des, rho)
    return des


def add_kerr(s, tr, o, des, r, m):
    sh = des.mask.shape
    for i in range(s['nnl']):
        reg = {'all': np.ones(sh), 'part': (r.rand(*sh) < .6).astype(int), 'frac': r.rand(*sh), 'design': des.mask}[s['reg']]
        chi = float(s['chi']) * float(s['L0'])**2 / 3 / m**2 * (1 + r.rand())
        kerr(tr, o, chi, reg, s['scale%d' % (1 + i % 2)], 12.25)


def run(s, tr):
    r = rng(s)
    sh = (s['Nx'], s['Ny'])
    des = setup(s, tr, r)
    if des is None:
        return
    sim = tr.objs['a']
    args = [(s['a%d' % i], s['n%d' % i]) for i in range(1, s['nargs'] + 1)]
    if s['order']:
        args = args[::-1]
    sc = scales(sim)
    add_kerr(s, tr, 'a', des, r, sc[s['pol']])
    if s['nnl'] and not nl_converges(sim, nls_of(tr, 'a')):
        return
    ob = rand_obj(r, args, [s['k%d' % i] for i in range(1, s['nterms'] + 1)], sc, sh)
    opt = des.opt(tr, ob.make(), sim)
    for p in s['prog'].split(','):
        if p == 'dJ':
            compute_dJ(tr, 'a', opt, ob, des, r)
        elif p == 'J':
            compute_J(tr, 'a', opt, ob)
        elif p == 'stale':           # the nonlinearity was last evaluated on something else
            e = sc[s['pol']] * (r.randn(*sh) + 1j * r.randn(*sh))
            tr.do('compute_nl', 'a', lambda: sim.compute_nl(e), e=tr.A(e))
        elif p == 'warm':
            solve(tr, 'a', s['order'] == 1)
