"""Replaying behaviours of Session (GenSession) on real Simulation objects."""
import copy
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from .common import *
from rec import num


class Values:
    """concrete values of the tokens of one scenario"""
    def __init__(self, s):
        self.s, self.sh = s, (s['Nx'], s['Ny'])
        self.e = {t: eps_of(s['epsk'] if t < 3 else 'lossy', self.sh, rng(s, t)) for t in (1, 2, 3)}
        self.q = {t: src_of(s['srck'] if t < 3 else 'random', self.sh, rng(s, 10 + t)) for t in (1, 2, 3)}
        self.om = {1: omega(s), 2: 1.1 * omega(s), 3: .8 * omega(s)}
        r = rng(s, 20)
        self.reg = {t: (r.rand(*self.sh) < .6).astype(float) for t in (1, 2, 3)}
        self.mask = {t: (r.rand(*self.sh) < .5).astype(int) for t in (1, 2, 3)}
        for t in (1, 2, 3):
            self.mask[t][r.randint(self.sh[0]), r.randint(self.sh[1])] = 1
        self.chi0 = 0.

    def chi(self):
        if not self.chi0 and self.s['pol'] == 'Ez':
            t = Simulation(self.om[1], self.e[1].copy(), dl(self.s), [self.s['npx'], self.s['npy']], 'Ez', L0=float(self.s['L0']))
            t.src = self.q[1]
            E = t.solve_fields()[2]
            self.chi0 = float(self.s['chi']) * float(self.s['L0'])**2 / 3 / max(np.abs(E).max()**2, 1e-300)
        return self.chi0


def probe_args(s, r):
    """direction, centre and width within the grid, centres also counted from the far side"""
    d = s if isinstance(s, str) else 'x'
    return d


def do_probe(tr, o, d, c, w, nl):
    sim = tr.objs[o]
    return tr.do('probe', o, lambda: sim.flux_probe(d, list(c), w, nl=True) if nl else sim.flux_probe(d, list(c), w),
                 enc=lambda r: {'ret': num(r)}, dir=d, c=[int(x) for x in c], w=int(w), nl=bool(nl))


def rand_probe(r, sh, d):
    n = sh if d == 'x' else (sh[1], sh[0])
    line = r.randint(n[0])
    if n[0] > 2 and r.rand() < .3:
        line = -r.randint(2, n[0])
    w = r.randint(1, n[1] + 1)
    lo = -(-w // 2)
    hi = n[1] - (w + 1) // 2
    mid = r.randint(lo, hi + 1) if hi >= lo else n[1] // 2
    return ((line, mid) if d == 'x' else (mid, line)), w


def add_nl(tr, o, chi, reg, scale, emax, nltype='kerr', given=True):
    sim = tr.objs[o]
    tr.own('nonlinear region', reg)
    kw = dict(eps_scale=scale)
    if given:
        kw['eps_max'] = emax
    tr.do('add_nl', o, lambda: sim.add_nl(chi, reg, nltype, **kw), nltype=str(nltype), emaxGiven=bool(given),
          nl=dict(chi=num(chi), reg=tr.A(reg), scale=bool(scale), emax=num(emax)))


def init_design(tr, o, mask, epsm, style, default=False):
    sim = tr.objs[o]
    tr.own('design mask', mask)
    tr.do('init_design', o, lambda: sim.init_design_region(mask, epsm) if default else sim.init_design_region(mask, epsm, style=style), mask=tr.A(mask), epsm=num(epsm), style=style)


def index_shift(tr, o):
    sim = tr.objs[o]
    t = copy.deepcopy(sim)
    try:
        t.solve_fields()
        conv = tr.S(t.solve_fields_nl()[3])
    except Exception:
        conv = []
    return tr.do('index_shift', o, lambda: sim.compute_index_shift(), enc=lambda r: {'ret': tr.A(r)}, conv=conv, thr=num(1e-10))


def run_ops(s, tr, ops, v, names):
    r = rng(s, 99)
    for op in ops:
        o = names[op['o'] - 1]
        k = op['op']
        if o not in tr.objs:
            return
        sim = tr.objs[o]
        if k == 'set_eps':
            set_eps(tr, o, v.e[op['t']])
        elif k == 'set_src':
            set_src(tr, o, v.q[op['t']])
        elif k == 'poke_src':
            i = r.randint(s['Nx'])

            def poke(q):
                q[i, :] = complex(op['t'], .5)
            poke_src(tr, o, poke)
        elif k == 'set_om_eps':
            set_om(tr, o, v.om[op['w']])
            set_eps(tr, o, v.e[op['t']])
        elif k == 'om_same':
            set_om(tr, o, v.om[op['w']])
            e = sim.eps_r
            set_eps(tr, o, np.array(e) if op['copy'] else e)
        elif k == 'poke_eps':
            e = np.array(sim.eps_r)
            tr.do('set_eps', o, lambda: setattr(sim, 'eps_r', e), eps=tr.A(e))
            e[r.randint(s['Nx']), :] += 1 + op['t']
            tr.do('set_eps', o, lambda: setattr(sim, 'eps_r', e), eps=tr.A(e))
        elif k == 'add_nl':
            add_nl(tr, o, v.chi(), v.reg[op['t']], op['t'] == 2, 12.25)
        elif k == 'clear_nl':
            tr.do('clear_nl', o, lambda: setattr(sim, 'nonlinearity', []))
        elif k == 'solve':
            solve(tr, o, op['avg'])
        elif k == 'solve_nl':
            if not np.any(sim.src):
                continue
            if s['pol'] == 'Hz' and sim.nonlinearity:
                continue
            st = v.q[1] * 0 + 1e-3 * (1 + 1j) if op['given'] else None
            solve_nl(tr, o, op['solver'], start=st)
        elif k == 'index_shift':
            if np.any(sim.src) and np.all(np.real(sim.eps_r) > 0):
                index_shift(tr, o)
        elif k == 'probe':
            c, w = rand_probe(r, v.sh, op['dir'])
            do_probe(tr, o, op['dir'], c, w, op['nl'])
        elif k == 'plot':
            w = op['what']
            f = {'abs': lambda: sim.plt_abs(), 're': lambda: sim.plt_re(), 'eps': lambda: sim.plt_eps(),
                 'diff': lambda: sim.plt_diff(), 'abs_nl': lambda: sim.plt_abs(nl=True)}[w]
            tr.do('plot', o, f)
            plt.close('all')
        elif k == 'compute_nl':
            e = v.q[op['t']]
            tr.own('field', e)
            tr.do('compute_nl', o, lambda: sim.compute_nl(e), e=tr.A(e))
        elif k == 'init_design':
            init_design(tr, o, v.mask[op['t']], 12.25, op['style'])
        elif k == 'copy':
            names.append('o%d' % (len(names) + 1))
            copy_sim(tr, o, names[-1])
        elif k == 'new':
            names.append('o%d' % (len(names) + 1))
            new_sim(tr, names[-1], s, v.e[op['t']])
        else:
            raise ValueError(k)


def run(s, tr):
    v = Values(s)
    if new_sim(tr, 'o1', s, v.e[1]) is None:
        return
    run_ops(s, tr, s['ops'], v, ['o1'])
    for o in sorted(tr.objs):
        tr.rec('read', o)
