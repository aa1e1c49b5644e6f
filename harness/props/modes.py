"""Mode definitions, their setup and the witnesses for it."""
from .common import *
from fdfd import Grid, EPS0, MU0
from rec import num


def span(m, sh):
    mid = m['c'][1] if m['dir'] == 'x' else m['c'][0]
    n = sh[1] if m['dir'] == 'x' else sh[0]
    return int(mid - m['w'] / 2), min(int(mid + m['w'] / 2), n)


def line(m, F):
    a, b = span(m, F.shape)
    return F[m['c'][0], a:b] if m['dir'] == 'x' else F[a:b, m['c'][1]]


def spectrum(sim, m, eps=None):
    """all eigenpairs of the line: values and rows of vectors"""
    e = np.array(line(m, np.array(sim.eps_r if eps is None else eps)))
    n = len(e)
    g = Grid(n, 1, float(sim.dl), float(sim.L0), float(sim.omega), [0, 0], sim.pol)
    D = g.Dxf @ g.Dxb
    k2 = g.om**2 * g.mu * g.ep
    A = D + k2 * np.diag(e) if sim.pol == 'Ez' else \
        np.diag(e) @ g.Dxf @ np.diag(1 / ((e + np.roll(e, 1)) / 2)) @ g.Dxb + k2 * np.diag(e)
    if not np.any(A.imag):
        A = A.real
    if sim.pol == 'Ez' and not np.iscomplexobj(A):
        w, v = np.linalg.eigh(A)
    else:
        w, v = np.linalg.eig(A)
    v = v / np.linalg.norm(v, axis=0)
    return w, v.T


def add_mode(tr, o, m):
    sim = tr.objs[o]
    kw = {}
    if m['scale'] != 1:
        kw['scale'] = m['scale']
    if m['order'] != 1:
        kw['order'] = m['order']
    c = tr.own('mode centre', list(m['c']))
    tr.do('add_mode', o, lambda: sim.add_mode(m['neff'], m['dir'], c, m['w'], **kw),
          mode=dict(neff=num(m['neff']), dir=m['dir'], c=list(m['c']), w=m['w'], scale=num(m['scale']), order=m['order']))


def setup_modes(tr, o, modes):
    sim = tr.objs[o]
    wit = []
    for m in modes:
        w, v = spectrum(sim, m)
        wit.append(dict(vals=tr.S(w), vecs=tr.A(v)))
    return tr.do('setup_modes', o, lambda: sim.setup_modes(), wit=wit)


def norm_eps(m, eps):
    out = np.ones(eps.shape)
    big = np.max(np.abs(eps))
    cut = eps[m['c'][0], :] if m['dir'] == 'x' else eps[:, m['c'][1]]
    core = (np.real(cut) > 1) | ((np.real(cut) == 1) & (np.imag(cut) > 0))
    if m['dir'] == 'x':
        out[:, core] = big
    else:
        out[core, :] = big
    return out


def power_of(tr, o, s, modes, name='n', om=None):
    """the straight waveguide of the last mode, as an object of its own"""
    sim = tr.objs[o]
    m = modes[-1]
    eps = norm_eps(m, np.array(sim.eps_r))
    w, v = spectrum(sim, m, eps)
    g = Grid(2, 2, float(sim.dl), float(sim.L0), float(sim.omega), [0, 0], sim.pol)
    k = np.argsort(np.abs(w - m['neff']**2 * g.om**2 * g.mu * g.ep))[m['order'] - 1]
    src = np.zeros(eps.shape)
    line(m, src)[...] = m['scale'] * np.real(v[k])
    if new_sim(tr, name, s, eps, om=float(sim.omega)) is None:
        return
    set_src(tr, name, src)
    solve(tr, name)
    tr.rec('power_of', o, o2=name, wit=dict(vals=tr.S(w), vecs=tr.A(v)))
    tr.objs.pop(name)


def mode_of(s, x):
    d = s['dir' + x]
    c = [s['c' + x], s['mid' + x]] if d == 'x' else [s['mid' + x], s['c' + x]]
    sc = float(s['scale' + x])
    return dict(dir=d, c=c, w=s['w' + x], order=s['order' + x], neff=float(s['neff' + x]), scale=1 if sc == 1 else sc)
