from .modes import *


def run(s, tr):
    r = rng(s)
    sh = (s['Nx'], s['Ny'])
    if new_sim(tr, 'a', s, eps_of(s['epsk'], sh, r)) is None:
        return
    if s['srct'] != 'default':
        q = src_of(s['srck'], sh, r)
        if s['srct'] == 'float':
            q = np.real(q).astype(float)
        elif s['srct'] == 'int':
            q = np.round(np.real(q) * 3).astype(int)
        set_src(tr, 'a', q)
    o = 'a'
    modes = [mode_of(s, x) for x in ('ab' if s['two'] else 'a')]
    for m in modes:
        add_mode(tr, 'a', m)
    for p in s['prog'].split(','):
        sim = tr.objs[o]
        if p == 'setup':
            setup_modes(tr, o, modes)
            if 'W_in' in sim.__dict__:
                power_of(tr, o, s, modes)
        elif p == 'solve':
            solve(tr, o)
        elif p == 'scale':
            sc = 3.5
            modes[0] = dict(modes[0], scale=sc)
            sim.modes[0].scale = sc
            tr.rec('scale_mode', o, scale=num(sc))
        elif p == 'eps':
            set_eps(tr, o, eps_of(s['epsk'], sh, r))
        elif p == 'om':
            set_om(tr, o, 1.1 * omega(s))
            set_eps(tr, o, np.array(sim.eps_r))
        elif p == 'copy':
            copy_sim(tr, 'a', 'b')
            o = 'b'
