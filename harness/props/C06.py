from fdfd import Grid
from .common import *
from .session import add_nl, index_shift
from rec import num

BAD = ['Kerr', 'chi2', 'pockels', '', 'KERR', None]


def run(s, tr):
    r = rng(s)
    sh = (s['Nx'], s['Ny'])
    if new_sim(tr, 'a', s, eps_of(s['epsk'], sh, r)) is None:
        return
    o = 'a'
    sim = tr.objs['a']
    set_src(tr, 'a', src_of(s['srck'], sh, r))
    lin = Grid.of(sim).solve(np.array(sim.eps_r), np.array(sim.src))
    m = np.abs(lin).max()
    L0 = float(s['L0'])

    def reg():
        x = r.rand(*sh) < .7
        return {'int': x.astype(int), 'float': x.astype(float), 'bool': x, 'frac': r.rand(*sh)}[s['regk']]
    twin = [None]
    for i in range(1, 10):
        p = s['p%d' % i]
        sim = tr.objs[o]
        if p.startswith('add'):
            chi = float(s['chi']) * L0**2 / 3 / m**2 * (1 + r.rand())
            if p in ('add', 'add_scaled') and len(sim.nonlinearity) > 4:
                continue
            if p == 'add_twin':         # another one just like the last
                if twin[0]:
                    add_nl(tr, o, *twin[0])
                continue
            if p in ('add', 'add_scaled'):
                twin[0] = (chi, reg(), p == 'add_scaled', float(s['emax']))
                add_nl(tr, o, *twin[0], given=p == 'add_scaled' or r.rand() < .5)
                continue
            add_nl(tr, o, chi, reg(), p in ('add_scaled', 'add_nomax') or (p == 'add_bad' and r.rand() < .5),
                   float(s['emax']), BAD[r.randint(len(BAD))] if p == 'add_bad' else 'kerr',
                   given=p != 'add_nomax')
        elif p.startswith('compute'):
            e = m * (r.randn(*sh) + 1j * r.randn(*sh))
            if p == 'compute_real':
                e = m * r.randn(*sh)
            elif p == 'compute_zero':
                e = np.zeros(sh)
            tr.own('field', e)
            tr.do('compute_nl', o, lambda: sim.compute_nl(e), e=tr.A(e))
        elif p == 'set_eps':
            set_eps(tr, o, eps_of('complex' if r.rand() < .5 else 'steps', sh, r))
        elif p == 'set_src':
            set_src(tr, o, src_of('random', sh, r) * .1)
        elif p == 'om':
            set_om(tr, o, omega(s) * 1.2)
            set_eps(tr, o, eps_of('real', sh, r))
        elif p == 'solve':
            solve(tr, o)
        elif p.startswith('shift'):
            if s['pol'] == 'Ez' and np.all(np.real(sim.eps_r) > 0):
                index_shift(tr, o)
        elif p == 'clear':
            tr.do('clear_nl', o, lambda: setattr(sim, 'nonlinearity', []))
        elif p == 'copy' and o == 'a':
            copy_sim(tr, 'a', 'b')
            if r.rand() < .5:
                o = 'b'
