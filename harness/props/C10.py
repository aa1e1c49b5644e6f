from .scans import *
from .C07 import setup, rho_of
from .session import init_design, add_nl


def reweight(ob, r):
    """another function of the same arguments"""
    terms = []
    for c, fs in ob.terms:
        terms.append((-c + .5, [f[:-1] + (np.asarray(f[-1]) * (1 + .5 * r.rand(*np.shape(f[-1]))),) for f in fs]))
    return Obj(ob.args, terms)


def run(s, tr):
    r = rng(s)
    sh = (s['Nx'], s['Ny'])
    des = setup(s, tr, r)
    if des is None:
        return
    sim = tr.objs['a']
    sc = scales(sim)
    P = s['pol']
    args = [(s['a%d' % i], s['n%d' % i]) for i in range(1, s['nargs'] + 1)]
    obs = {}
    o1 = rand_obj(r, args, [s['k%d' % i] for i in range(1, s['nterms'] + 1)], sc, sh)
    o2 = rand_obj(r, [(s['b1'], s['m1'])], [s['k2']], sc, sh)
    obs[1, 1], obs[1, 2] = o1, reweight(o1, r)
    obs[2, 1], obs[2, 2] = o2, reweight(o2, r)
    real = {1: o1.make(), 2: o2.make()}
    cur = [1, {1: 1, 2: 1}]
    limit = None
    opt = des.opt(tr, real[1], sim, max_ind_shift=limit)
    opt2 = des.opt(tr, real[2], sim)
    names = ['a']
    g = [None]

    def ok(o, ob):
        n = nls_of(tr, o)
        return ob.linear or not n or nl_converges(tr.objs[o], n)
    for op in s['ops']:
        k = op['op']
        o = names[op['o'] - 1]
        sim = tr.objs[o]
        ob = obs[cur[0], cur[1][cur[0]]]
        w = cur[1]
        if k == 'set_design':
            set_design(tr, o, des, rho_of(s['rhok'], sh, r))
        elif k == 'set_eps':
            set_eps(tr, o, eps_of('real', sh, r))
        elif k == 'set_rho':
            set_rho(tr, o, r.rand(*sh))
        elif k == 'set_src':
            set_src(tr, o, src_of('random', sh, r) * (.5 + r.rand()))
        elif k == 'poke_src':
            i, j, m = r.randint(sh[0]), r.randint(sh[1]), max(np.abs(sim.src).max(), 1e-3)

            def poke(q):
                q[i, j] += m * complex(1, .5)
            poke_src(tr, o, poke)
        elif k == 'scale_src':
            f = .3 + r.rand()
            if op['t'] == 1:
                set_src(tr, o, np.array(sim.src) * f)
            else:
                def scale(q):
                    q *= f
                poke_src(tr, o, scale)
        elif k == 'set_om_eps':
            set_om(tr, o, omega(s) * (1 if op['w'] == 1 else 1.15))
            set_eps(tr, o, des.image(np.array(sim.rho), eps_of('real', sh, r)))
        elif k == 'set_om':
            set_om(tr, o, omega(s) * (1, 1.15, .9)[op['w'] - 1])
        elif k == 'add_nl':
            m = sc[P]
            reg = {'all': np.ones(sh), 'part': (r.rand(*sh) < .6).astype(int), 'design': des.mask}[s['reg']]
            kerr(tr, o, float(s['chi']) * float(s['L0'])**2 / 3 / m**2 * (1 + r.rand()), reg, s['scale1'], 12.25)
        elif k == 'clear_nl':
            tr.do('clear_nl', o, lambda: setattr(sim, 'nonlinearity', []))
            if hasattr(tr, 'nls'):
                tr.nls[o] = []
        elif k == 'solve':
            solve(tr, o, op['avg'])
        elif k == 'solve_nl':
            if np.any(sim.src):
                solve_nl(tr, o, 'born', start=np.full(sh, 1e-3 * (1 + 1j)) if op['given'] else None)
        elif k == 'compute_nl':
            e = sc[P] * (r.randn(*sh) + 1j * r.randn(*sh))
            tr.do('compute_nl', o, lambda: sim.compute_nl(e), e=tr.A(e))
        elif k == 'init_design':
            init_design(tr, o, des.mask, des.epsm, op['style'])
        elif k == 'copy':
            names.append('b')
            copy_sim(tr, o, 'b')
            if hasattr(tr, 'nls'):
                tr.nls['b'] = list(tr.nls.get(o, []))
        elif k == 'objective':
            cur[0] = op['t']
            opt.objective = real[op['t']]
        elif k == 'function':
            w[cur[0]] = op['t']
            real[cur[0]].J = obs[cur[0], op['t']].J()
        elif k == 'check_deriv':
            if ok(o, ob) and np.all(np.isreal(sim.rho)):
                e = tr.objs[o]
                set_design(tr, o, des, np.real(np.array(sim.rho)))
                if ok(o, ob):
                    check_deriv(tr, 'a', opt, des, 1, 1e-2)
        elif k == 'scan_frequency':
            if ok(o, ob):
                scan_frequency(tr, 'a', opt, op['t'], .05)
        elif k == 'run':
            if not ok(o, ob) or not np.all(np.isreal(sim.rho)):
                continue
            run_opt(tr, 'a', opt, des, op['m'], 1, 1e-3)
            if not np.all(np.isfinite(np.array(sim.eps_r))):
                return
        elif k == 'other':
            ob2 = obs[2, w[2]]
            if ok(o, ob2):
                compute_J(tr, o, opt2, ob2)
        elif k == 'J':
            if ok(o, ob):
                compute_J(tr, o, opt, ob)
        elif k == 'dJ':
            if ok(o, ob) and np.all(np.isreal(sim.rho)):
                compute_dJ(tr, o, opt, ob, des, r, n=1, cells=1)
        else:
            raise ValueError(k)
