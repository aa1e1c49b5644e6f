"""Device snapshots (data/device_saver.py), with a stand-in for the pickling library dill,
which is not installed: pickle, functions being kept by reference."""
import hashlib
import importlib.util
import io
import pickle
import shutil
import tempfile
import types
import os
import sys
import warnings
from angler import structures
from .scans import *
from .modes import *
from .C07 import add_kerr, rho_of
from .C13 import clear_mode, carries, witness


def stand_in():
    m = types.ModuleType('dill')
    kept = {}

    class P(pickle.Pickler):
        def persistent_id(self, x):
            if isinstance(x, types.FunctionType):
                kept[id(x)] = x
                return id(x)

    class U(pickle.Unpickler):
        def persistent_load(self, k):
            return kept[k]

    def dump(x, f, *a, **kw):
        P(f).dump(x)

    def dumps(x, *a, **kw):
        f = io.BytesIO()
        P(f).dump(x)
        return f.getvalue()
    m.dump, m.dumps = dump, dumps
    m.load = lambda f, *a, **kw: U(f).load()
    m.loads = lambda b, *a, **kw: U(io.BytesIO(b)).load()
    m.Pickler, m.Unpickler = P, U
    return m


def module():
    if 'device_saver' not in sys.modules:
        sys.modules.setdefault('dill', stand_in())
        path = os.path.join(os.environ['ANGLER_REPO'], 'data', 'device_saver.py')
        spec = importlib.util.spec_from_file_location('device_saver', path)
        sys.modules['device_saver'] = m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
    return sys.modules['device_saver']


def plain(x, depth=0):
    """value of an attribute, down to the numbers"""
    if isinstance(x, np.ndarray):
        return ('a', x.shape, str(x.dtype), x.tobytes())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [plain(y, depth + 1) for y in x])
    if isinstance(x, dict):
        return ('d', sorted((str(k), plain(v, depth + 1)) for k, v in x.items()))
    if isinstance(x, (types.FunctionType, types.BuiltinFunctionType)):
        return ('f', x.__name__)
    if hasattr(x, 'tocsr'):
        y = x.tocsr()
        y.sort_indices()
        return ('s', y.shape, y.indptr.tobytes(), y.indices.tobytes(), y.data.tobytes())
    if hasattr(x, '__dict__') and depth < 15:
        return (type(x).__name__, plain(vars(x), depth + 1))
    return repr(x)


def digest(x):
    return hashlib.md5(repr(plain(x)).encode()).hexdigest()


def flags(D):
    return [bool(D.are_parameters_set), bool(D.is_geometry_set), bool(D.is_data_generated)]


GEO = {'two_port': 'L H w l spc dl', 'three_port': 'L H w d l spc dl', 'ortho_port': 'L L2 H H2 w l dl'}


def run(s, tr):
    r = rng(s)
    kind = s['kind']
    h = dl(s)
    fr = float(s['frac'])
    p = {k: (s[k] + fr + .05 * r.rand()) * h for k in ('L', 'L2', 'H', 'H2', 'w', 'd', 'l', 'spc')}
    p['dl'] = h
    np_ = [s['npx'], s['npy']]
    m = float(s['epsm'])
    names = GEO[kind].split()
    args = [p[k] for k in names] + [np_, m]
    eps, mask = getattr(structures, kind)(*args)
    mask = np.rint(mask).astype(int)
    sh = eps.shape
    out = [-np_[i] - int(p['l'] / 2 / h) for i in (0, 1)]
    if -1 in out or mask.sum() == 0 or np_[0] * 2 + 2 > sh[0] or np_[1] * 2 + 2 > sh[1]:
        return
    s = dict(s, pol='Ez', Nx=sh[0], Ny=sh[1])
    tr.own('NPML', np_)
    if new_sim(tr, 'a', s, eps) is None:
        return
    sim = tr.objs['a']
    w = max(4, 2 * (sh[1] // 2) - 2)
    mode = dict(dir='x', c=[np_[0] + 1, sh[1] // 2], w=w, order=1, neff=float(s['neff']), scale=1 if s['scl'] == '1' else float(s['scl']))
    if not clear_mode(sim, mode):
        return
    add_mode(tr, 'a', mode)
    setup_modes(tr, 'a', [mode])
    if not hasattr(sim, 'W_in') or not np.isfinite(sim.W_in) or not carries(sim, mode, s):
        return
    des = Design(mask, np_, s['R'], float(s['eta']), float(s['beta']), m)
    rho = r.rand(*sh)
    set_design(tr, 'a', des, rho)
    sc = scales(sim)
    if not np.isfinite(sc['Ez']) or sc['Ez'] == 0:
        return
    add_kerr(s, tr, 'a', des, r, sc['Ez'])
    nls = nls_of(tr, 'a')
    ob = rand_obj(r, [(s['a1'], s['n1'])], ['abs2'], sc, sh)
    opt = des.opt(tr, ob.make(), sim)
    if s['pre'] == 'solve':
        solve(tr, 'a')
    elif s['pre'] == 'solve_nl':
        solve_nl(tr, 'a', 'born')
    elif s['pre'] in ('solve,src', 'solve_nl,src'):
        solve(tr, 'a')
        if s['pre'] == 'solve_nl,src':
            solve_nl(tr, 'a', 'born')
        set_src(tr, 'a', np.array(sim.src) * .6)
    elif s['pre'] == 'run':
        opt.objfn_list.extend([1., 2.])
        opt.src_amplitudes.extend([3., 4.])
    M = module()

    def ostate():
        return digest({k: v for k, v in vars(opt).items() if k != 'simulation'})
    o0 = ostate()
    D, exc = tr.call(lambda: M.Device(sim, opt))
    ok = bool(not nls or nl_converges(sim, nls))
    if exc == '':
        tr.objs['d'] = D.simulation
        tr.nls = dict(getattr(tr, 'nls', {}), d=list(nls))
    e = tr.rec('dev_new', 'd', orig='a', sure=ok, opt=[o0, ostate()])
    e['exc'] = exc
    if exc:
        return
    e.update(Ez=tr.A(D.Ez), Eznl=tr.A(D.Ez_nl), L0=num(D.L0), flags=flags(D))

    def params():
        q = dict(lambda0=float(s['wl']) * 1e-6, dl=h, chi3=float(s['chi']), eps_m=m, source_amp=float(s['scl']))
        _, exc = tr.call(lambda: D.set_parameters(q['lambda0'], q['dl'], np_, q['chi3'], q['eps_m'], q['source_amp']))
        e = tr.rec('dev_params', 'd', p={k: num(v) for k, v in q.items()}, np=list(np_))
        e['exc'] = exc
        if exc == '':
            e.update(d={k: num(getattr(D, k)) for k in q}, npgot=[int(x) for x in D.NPML], omega=num(D.omega), gpl=num(D.grids_per_lamda),
                     N=[int(D.Nx), int(D.Ny), int(D.nx), int(D.ny)], xr=tr.S(D.x_range), yr=tr.S(D.y_range), flags=flags(D))
        return exc == ''

    def geom(k=kind):
        was = flags(D)[1]
        _, exc = tr.call(lambda: D.set_geometry(k, *args))
        e = tr.rec('dev_geom', 'd', kind=k, was=was, p={k: num(p[k]) for k in names + []}, np=list(np_))
        e['p']['eps_start'] = num(m)
        e.update(exc=exc, flags=flags(D))
        if exc == '':
            e.update(d={k: num(getattr(D, k)) for k in names + ['eps_start']}, npgot=[int(x) for x in D.NPML], type=D.structure_type)
        return exc == ''
    todo = [params, geom] if s['first'] == 'params' else [geom, params]
    progs = s['prog'].split(',')
    if s['bad'] != 'none':
        geom(s['bad'])
    if 'data' in progs or r.rand() < .5:
        if not all(f() for f in todo):
            return
    for q in progs:
        if q == 'geom':
            geom()
        elif q == 'data':
            data(s, tr, D, opt, ob, des, p, np_, kind, ok, ostate)
        elif q in ('save', 'load'):
            stored(s, tr, D, M, q)


def data(s, tr, D, opt, ob, des, p, np_, kind, ok, ostate):
    sim = tr.objs['a']
    h = p['dl']
    Nx, Ny = sim.Nx, sim.Ny
    # what the original gives
    witness(tr, 'a', 'i')
    index_shift(tr, 'i')
    forget(tr, 'i')
    names = []
    om, df = float(sim.omega), 1 / 400
    nls = nls_of(tr, 'a')
    for k, f in enumerate(np.linspace(om - om * df / 2, om + om * df / 2, s['nf'])):
        name = 'f%d' % k
        w = witness(tr, 'a', name)
        set_om(tr, name, float(f))
        set_eps(tr, name, np.array(sim.eps_r))
        if not ob.linear and nls and not nl_converges(w, nls):
            names = []
            forget(tr, name)
            break
        compute_J(tr, name, fresh(tr, name, ob, des), ob)
        names.append(name)
        forget(tr, name)
    o2, s2 = fork(tr, opt, 'a', 'r')
    scan_frequency(tr, 'r', o2, s['nf'], df, names)
    fref = len(tr.ev)
    out = [-np_[i] - int(p['l'] / 2 / h) for i in (0, 1)]
    hw = int(p['H'] / 2 / h)
    ny, nx = Ny // 2, Nx // 2
    probes = {'two_port': [('x', [out[0], ny], int(Ny / 2), True)],
              'three_port': [('x', [out[0], ny + int(p['d'] / 2 / h)], hw, True), ('x', [out[0], ny - int(p['d'] / 2 / h)], hw, True)],
              'ortho_port': [('x', [out[0], ny], hw, True), ('y', [nx, out[1]], hw, True)]}[kind]
    smin, smax = float(s['smin']), float(s['smax'])
    scan_power(tr, 'r', o2, probes, s['np'], smin, smax, 'hybrid', [], None)
    pref = len(tr.ev)
    forget(tr, 'r')
    o0 = ostate()
    _, exc = tr.call(lambda: D.generate_data(Nf=s['nf'], Np=s['np'], s_min=smin, s_max=smax))
    plt.close('all')
    e = tr.rec('dev_data', 'd', kind=kind, sure=ok, g={k: num(v) for k, v in p.items() if k in GEO[kind].split()}, np=list(np_), Nf=s['nf'], Np=s['np'],
               smin=num(smin), smax=num(smax), fref=fref, pref=pref, shiftof='i', opt=[o0, ostate()])
    e['exc'] = exc
    if exc:
        return
    at = {'two_port': {'out': ('W_out_lin', 'W_out_nl'), 'in': ('W_in_lin', 'W_in_nl')},
          'three_port': {'top': ('W_top_lin', 'W_top_nl'), 'bot': ('W_bot_lin', 'W_bot_nl')},
          'ortho_port': {'top': ('W_top_lin', 'W_top_nl'), 'right': ('W_right_lin', 'W_right_nl')}}[kind]
    e.update(Win=num(D.W_in), shift=tr.A(D.index_shift), W={k: [num(getattr(D, x)) for x in v] for k, v in at.items()},
             freqs=tr.S(D.freqs), objs=tr.S(D.objs), width=num(D.FWHM), Q=num(D.Q), omega=num(D.omega), powers=tr.S(D.powers),
             trans=[tr.S(t) for t in D.transmissions], flags=flags(D))
    if kind == 'two_port':
        e['T'] = [num(D.T_lin), num(D.T_nl)]
    else:
        e['S'] = [[num(x) for x in row] for row in D.S]


def stored(s, tr, D, M, q):
    d = tempfile.mkdtemp(prefix='angler_device_')
    try:
        fn = os.path.join(d, 'device.p')
        before = digest(vars(D))
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            _, exc = tr.call(lambda: D.save(fn))
        ws = [w for w in ws if w.category is UserWarning]
        if q == 'save':
            e = tr.rec('dev_save', 'd', file=os.listdir(d) == ['device.p'], warned=[str(w.message)[:60] for w in ws], flags=flags(D),
                       before=before, after=digest(vars(D)))
            e['exc'] = exc
        if exc == '' and (q == 'load' or s['prog'].endswith('load')):
            L, exc = tr.call(lambda: M.load_device(fn))
            e = tr.rec('dev_load', 'd', was={k: digest(v) for k, v in vars(D).items()})
            e['exc'] = exc
            if exc == '':
                e['got'] = {k: digest(getattr(L, k)) for k in L._fields} if hasattr(L, '_fields') else {k: digest(v) for k, v in vars(L).items()}
    finally:
        shutil.rmtree(d, ignore_errors=True)
