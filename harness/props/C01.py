from .common import *
from rec import num


def run(s, tr):
    r = rng(s)
    sh = (s['Nx'], s['Ny'])
    eps = eps_of(s['epsk'], sh, r)
    if s['oneD']:
        eps = eps[:, 0].copy()
    sim = new_sim(tr, 'a', s, eps)
    if sim is None:
        return
    set_src(tr, 'a', src_of(s['srck'], sh, r))
    o = 'a'
    if s['prog'] == 'copy':
        copy_sim(tr, 'a', 'b')
        o = 'b'
    solve(tr, o, s['avg'])
    w = s['again']
    if w == 'src':
        set_src(tr, o, src_of('random', sh, r))
    elif w == 'scaled':
        set_src(tr, o, 1e6 * tr.objs[o].src)
    elif w == 'eps':
        e2 = eps_of('complex', sh, r)
        set_eps(tr, o, e2[:, 0].copy() if s['oneD'] else e2)
    elif w == 'om':
        set_om(tr, o, 1.3 * omega(s))
        set_eps(tr, o, eps_of('real', sh, r))
    solve(tr, o, not s['avg'] if w == 'eps' else s['avg'])
