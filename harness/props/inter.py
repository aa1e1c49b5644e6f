"""Several simulations, optimizations, modes and copies side by side (GenC23).

Next to the recorded history of all of them, the history of each simulation on
its own is performed in a process that has seen nothing else."""
import os, pickle, select, signal, struct
from rec import Trace, quiet
from .scans import *
from .C07 import rho_of
from .session import init_design, add_nl, index_shift, rand_probe, do_probe
from .modes import add_mode


# ---- static facts about a scenario -----------------------------------------------
def plan(ops):
    """owner of each simulation and optimization, per position in the history"""
    sims, opts = [], []
    for i, op in enumerate(ops):
        if op['op'] in ('new', 'copy'):
            sims.append(i)
        elif op['op'] == 'new_opt':
            opts.append((i, op['o'] - 1, op['obj'], bool(op['share'])))
    return sims, opts


def needed(ops, target):
    """positions of the operations that make up the history of one simulation"""
    sims, opts = plan(ops)
    out = set()

    def exist(o):
        """create simulation o (with the contents it is created with)"""
        i = sims[o]
        if i in out:
            return
        out.add(i)
        if ops[i]['op'] == 'copy':
            history(ops[i]['o'] - 1, i)

    def history(o, end):
        exist(o)
        for i, op in enumerate(ops[:end]):
            if op['op'] in ('new', 'copy') or i in out or op['o'] - 1 != o:
                continue
            out.add(i)
            if op['op'] == 'new_opt' or 'j' not in op:
                continue
            j = op['j'] - 1
            out.add(opts[j][0])
            exist(opts[j][1])
    history(target, len(ops))
    used = {ops[i]['j'] - 1 for i in out if 'j' in ops[i]} | {n for n, x in enumerate(opts) if x[0] in out}
    keys = {key(ops, opts, j) for j in used}
    for j in range(len(opts)):
        if key(ops, opts, j) in keys:           # an objective shared by several optimizations
            for i, op in enumerate(ops):
                if op['op'] == 'function' and op['j'] - 1 == j:
                    out.add(i)
                    out.add(opts[j][0])
                    exist(opts[j][1])
    return sorted(out)


def key(ops, opts, j):
    i, o, g, share = opts[j]
    return ('shared', g, ops[i]['pol'], bool(ops[i]['nl'])) if share else ('own', j)


# ---- performing a history -----------------------------------------------------------
class World:
    def __init__(self, s, tr):
        self.s, self.tr = s, tr
        self.sh = (s['Nx'], s['Ny'])
        self.sims, self.opts = plan(s['ops'])
        self.index = {i: k for k, i in enumerate(self.sims)}
        self.oindex = {x[0]: k for k, x in enumerate(self.opts)}
        self.opt, self.des, self.obj = {}, {}, {}
        self.mask = [np.ones(self.sh, int)]
        for t in range(2):
            m = (rng(s, 40 + t).rand(*self.sh) < .6).astype(int)
            m[self.sh[0] // 2, self.sh[1] // 2] = 1
            self.mask.append(m)
        if rng(s, 43).rand() < .8:      # as many cells as another one
            self.mask[2] = self.mask[1][::-1, ::-1].copy()
        self.vals = {}              # position -> what the operation returned
        self.sc = {}

    def setup(self, v):
        s = dict(self.s)
        if v == 'om':
            s['wl'] = repr(float(s['wl']) / 1.1)
            s['res'] = s['res'] / 1.1
        elif v == 'np':
            s['npx'] = (s['npx'] + 1) % 3
        elif v == 'pol':
            s['pol'] = 'Hz' if s['pol'] == 'Ez' else 'Ez'
        elif v == 'dl':
            s['res'] = 1.3 * s['res']
        elif v == 'L0':
            s['L0'] = '1e-9' if s['L0'] != '1e-9' else '1e-6'
        return s

    def objective(self, j, sim):
        i, o, g, share = self.opts[j]
        k = key(self.s['ops'], self.opts, j)
        if k not in self.obj:
            op = self.s['ops'][i]
            P, nl = op['pol'], bool(op['nl'])
            c2 = ('Hx' if P == 'Ez' else 'Ey') if not nl else P
            args = {1: [(P, nl)], 2: [(P, nl), (P, False)], 3: [(c2, nl)]}[g]
            kinds = {1: [self.s['k1']], 2: [self.s['k2']], 3: ['abs2', 'lin']}[g]
            r = rng(self.s, 60 + g)
            t = Simulation(omega(self.s), eps_of('real', self.sh, r), dl(self.s), [0, 0], P, L0=float(self.s['L0']))
            t.src = src_of('random', self.sh, r)
            sc = scales(t)
            ob = rand_obj(r, args, kinds, sc, self.sh)
            self.obj[k] = [ob, ob.make()]
        return self.obj[k]

    def consistent(self, o, des, r, real=True):
        sim = self.tr.objs[o]
        rho = getattr(sim, 'rho', None)
        if rho is None or not np.all(np.isreal(rho)) or np.any(np.real(rho) < 0) or np.any(np.real(rho) > 1):
            set_design(self.tr, o, des, rho_of('random', self.sh, r))

    def act(self, i, sure=None):
        """perform the i-th operation; False: left out"""
        s, tr, sh, op = self.s, self.tr, self.sh, self.s['ops'][i]
        r = rng(s, 1000 + i)
        np.random.seed((s['seed'] + 17 * i) % 2**31)
        k = op['op']
        o = 'o%d' % op['o']
        if k == 'new':
            v = self.setup(op['v'])
            e = eps_of(s['epsk'], sh, rng(s, 1))
            if op['v'] == 'flip':
                e = e[::-1, ::-1].copy()
            tr.touch = [o]
            if new_sim(tr, o, v, e) is None:
                return False
            self.watch(o)
            set_src(tr, o, src_of(s['srck'], sh, r))
            return True
        if o not in tr.objs:
            return False
        sim = tr.objs[o]
        tr.touch = [o] + (['p%d' % op['j']] if 'j' in op else [])
        if k == 'copy':
            n = 'o%d' % (self.index[i] + 1)
            tr.touch = [n]
            if copy_sim(tr, o, n) is None:
                return False
            tr.nls[n] = list(tr.nls.get(o, []))
            self.watch(n)
            return True
        if k == 'new_opt':
            j = self.oindex[i]
            g = op['obj']
            des = Design(self.mask[op['m'] - 1], list(sim.NPML), s['R'] * op['f'], float(s['eta']), float(s['beta']), float(s['epsm']) + g)
            ob, real = self.objective(j, sim)
            n = 'p%d' % (j + 1)
            tr.touch = [n]
            p, exc = tr.call(lambda: des.opt(tr, real, sim))
            if p is not None:
                self.opt[j], self.des[j] = p, des
                self.watch_opt(n, p)
            e = tr.rec('new_optim', None, recs=tr.S(p.objfn_list) if p is not None else [], amps=tr.S(p.src_amplitudes) if p is not None else [])
            e['exc'] = exc
            return p is not None
        opt = des = ob = None
        if 'j' in op:
            j = op['j'] - 1
            if j not in self.opt:
                return False
            opt, des = self.opt[j], self.des[j]
            ob = self.objective(j, sim)[0]
        nls = nls_of(tr, o)

        def may(*a):
            """does the nonlinear problem converge? (decided once per operation)"""
            if sure is not None:
                return True
            return not nls or nl_converges(sim, nls)
        if k == 'set_eps':
            set_eps(tr, o, eps_of('real' if op['t'] == 1 else s['epsk'], sh, r))
        elif k == 'set_src':
            set_src(tr, o, src_of('random' if op['t'] == 1 else s['srck'], sh, r) * (.5 + r.rand()))
        elif k == 'set_om_eps':
            set_om(tr, o, float(sim.omega) * (1, 1.1, .9)[op['t'] - 1])
            set_eps(tr, o, eps_of('real', sh, r))
        elif k == 'solve':
            solve(tr, o, op['t'] == 2)
        elif k == 'solve_nl':
            if not np.any(sim.src) or not may():
                return False
            solve_nl(tr, o, 'born')
        elif k == 'add_nl':
            t = copy.deepcopy(sim)
            m = np.abs(t.solve_fields()[2]).max()
            if not m > 0:
                return False
            reg = (np.ones(sh), (r.rand(*sh) < .6).astype(int), self.mask[1])[op['t'] - 1]
            kerr(tr, o, float(s['chi']) * float(sim.L0)**2 / 3 / m**2, reg, op['t'] == 2, 12.25)
        elif k == 'clear_nl':
            tr.do('clear_nl', o, lambda: setattr(sim, 'nonlinearity', []))
            tr.nls[o] = []
        elif k == 'init_design':
            init_design(tr, o, self.mask[op['t'] - 1], 12.25, ('full', 'halfway', 'empty')[r.randint(3)])
        elif k == 'index_shift':
            if not np.any(sim.src) or not np.all(np.real(sim.eps_r) > 0) or not may():
                return False
            self.vals[i] = index_shift(tr, o)
        elif k == 'probe':
            c, w = rand_probe(r, sh, 'xy'[op['t'] % 2])
            self.vals[i] = do_probe(tr, o, 'xy'[op['t'] % 2], c, w, False)
        elif k == 'plot':
            tr.do('plot', o, (lambda: sim.plt_abs(), lambda: sim.plt_re(), lambda: sim.plt_eps())[op['t'] - 1])
            plt.close('all')
        elif k == 'add_mode':
            d = 'xy'[op['t'] % 2]
            add_mode(tr, o, dict(neff=1.5 + op['t'], dir=d, c=[sh[0] // 2, sh[1] // 2], w=2, scale=1 if op['t'] < 3 else 2., order=1))
        elif k == 'snap':       # state of the records
            tr.touch = []
            tr.rec('read', o)
        elif k == 'function':
            cell = self.objective(j, sim)
            from .C10 import reweight
            cell[0] = reweight(cell[0], r)
            cell[1].J = cell[0].J()
            tr.touch = []
        elif k == 'J':
            if not (ob.linear or may()):
                return False
            self.vals[i] = compute_J(tr, o, opt, ob)
        elif k == 'dJ':
            if not (ob.linear or may()):
                return False
            self.consistent(o, des, r)
            if not (ob.linear or may()):
                return None if sure is None else True
            self.vals[i] = compute_dJ(tr, o, opt, ob, des, r, n=1, cells=1)
        elif k in ('run', 'check_deriv'):
            if np.iscomplexobj(np.array(sim.eps_r)) and np.any(np.imag(sim.eps_r)):
                set_eps(tr, o, eps_of('real', sh, r))
            if k == 'check_deriv':
                set_design(tr, o, des, rho_of('random', sh, r))
            else:
                self.consistent(o, des, r)
            if not (ob.linear or may()):
                return None if sure is None else True
            if k == 'check_deriv':
                check_deriv(tr, o, opt, des, 1, 1e-2)
            else:
                with np.errstate(all='ignore'):
                    p, t = copy.deepcopy((opt, sim))
                    g = np.abs(p.compute_dJ(t, des.mask)).max()
                if not np.isfinite(g) or g == 0:
                    return None if sure is None else True
                run_opt(tr, o, opt, des, op['m'], op['n'], .05 if op['m'] == 'adam' else .1 / g)
                self.vals[i] = np.array(opt.objfn_list)
        elif k == 'scan_frequency':
            if not (ob.linear or not nls):
                return False
            e = scan_frequency(tr, o, opt, 1 + op['j'] + 1, .05)
            self.vals[i] = np.array([complex(*map(float, v.split())) for v in e['freqs'] + e['vals'] + [e['width']]]) if e['exc'] == '' else None
        else:
            raise ValueError(k)
        return True

    def watch(self, o):
        sim, tr = self.tr.objs[o], self.tr
        tr.things[o] = lambda: [repr((m.neff, m.direction_normal, list(m.center), m.width, m.order, m.scale)) for m in sim.modes] + \
            [repr((n.chi, tr.A(n.nl_region), n.nl_type, n.eps_scale, n.eps_max)) for n in sim.nonlinearity]

    def watch_opt(self, n, p):
        tr = self.tr
        tr.things[n] = lambda: [num(p.eta), num(p.beta), repr(p.R), num(p.eps_m), repr(p.max_ind_shift), repr(tr.A(p.design_region)),
                                'records'] + tr.S(p.objfn_list) + ['amplitudes'] + tr.S(p.src_amplitudes) + \
            [repr((a.name, a.component, a.nl)) for a in p.objective.arg_list]


def final(w, o):
    sim = w.tr.objs[o]
    out = {'eps': sim.eps_r, 'src': sim.src, 'rho': getattr(sim, 'rho', None), 'lin': sim.fields[sim.pol], 'nl': sim.fields_nl[sim.pol],
           'om': sim.omega}
    for i, v in w.vals.items():
        if w.s['ops'][i]['o'] == int(o[1:]):
            out['%d %s' % (i, w.s['ops'][i]['op'])] = v
    return {k: None if v is None else np.array(v) for k, v in out.items()}


class Bare(Trace):
    """performs without recording"""
    def A(self, a):
        return 0

    def obs(self, sim):
        return {}

    def own(self, name, a):
        return a

    def rec(self, ev, o=None, **kw):
        return dict(kw, exc='')

    def do(self, ev, o, fn, enc=None, **kw):
        return self.call(fn)[0]


def prepare(s):
    """polarization of each optimization, as far as it follows from the scenario"""
    pol = []
    s = dict(s, ops=[dict(op='new', o=1, v='same')] + [dict(op) for op in s['ops']])
    for op in s['ops']:
        if op['op'] == 'new':
            pol.append(('Hz' if s['pol'] == 'Ez' else 'Ez') if op['v'] == 'pol' else s['pol'])
        elif op['op'] == 'copy':
            pol.append(pol[op['o'] - 1])
        elif op['op'] == 'new_opt':
            op['pol'] = pol[op['o'] - 1]
    return s


def alone(s, did, target):
    tr = Bare('')
    tr.nls, tr.things, tr.touch = {}, {}, []
    w = World(s, tr)
    for i in needed(s['ops'], target):
        if did[i]:
            w.act(i, sure=True)
    return final(w, 'o%d' % (target + 1))


# ---- the process that has seen nothing ----------------------------------------------
def zygote():
    a, b = os.pipe()
    c, d = os.pipe()
    if os.fork():
        os.close(a), os.close(d)
        return b, c
    os.close(b), os.close(c)
    n = os.open(os.devnull, os.O_RDWR)
    for k in (0, 1, 2):
        os.dup2(n, k)
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    while True:
        try:
            h = read(a, 8)
            if h is None:
                os._exit(0)
            body = read(a, struct.unpack('q', h)[0])
            pid = os.fork()
            if not pid:
                signal.alarm(100)
                try:
                    with quiet():
                        out = alone(*pickle.loads(body))
                except Exception as e:
                    out = '%s: %s' % (type(e).__name__, e)
                write(d, out)
                os._exit(0)
            _, st = os.waitpid(pid, 0)
            if st:
                write(d, None)
        except Exception:
            os._exit(1)


def read(fd, n):
    out = b''
    while len(out) < n:
        x = os.read(fd, n - len(out))
        if not x:
            return None
        out += x
    return out


def write(fd, x):
    b = pickle.dumps(x)
    b = struct.pack('q', len(b)) + b
    while b:
        b = b[os.write(fd, b):]


Z = zygote()


def ask(*args):
    write(Z[0], args)
    h = read(Z[1], 8)
    return None if h is None else pickle.loads(read(Z[1], struct.unpack('q', h)[0]))


def run(s, tr):
    s = prepare(s)
    tr.nls, tr.things, tr.touch = {}, {}, []
    w = World(s, tr)
    ops = s['ops']
    did = {}
    for i in range(len(ops)):
        did[i] = w.act(i)
        if did[i] is None:          # performed in part
            did[i] = False
            w.part = getattr(w, 'part', set()) | {ops[i]['o'] - 1}
    for o in sorted(tr.objs):
        t = int(o[1:]) - 1
        if getattr(w, 'part', None):
            break
        one, two = final(w, o), ask(s, did, t)
        if two is None:
            continue
        e = tr.rec('solo', None, of=o, fail=two if isinstance(two, str) else '', names=sorted(one), pairs=[])
        if isinstance(two, dict):
            e['pairs'] = [dict(a=tr.A(one[k]), b=tr.A(two.get(k))) for k in sorted(one)]
            e['same'] = sorted(one) == sorted(two)
        else:
            e['same'] = True
