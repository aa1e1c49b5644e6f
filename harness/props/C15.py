"""Structure generators against the shapes they document."""
import contextlib
import io
from angler import structures
from .common import *
from rec import num

EXACT = ('0.125', '0.25', '1')


def tie(x):
    return abs(x - round(x)) < 1e-6


def run(s, tr):
    r = rng(s)
    if s['kind'] == 'regions':
        return regions(s, tr, r)
    d = float(s['dl'])
    f = {'L': s['fL'], 'L2': s['fL'], 'H': s['fH'], 'H2': s['fH'], 'w': s['fw'], 'd': s['fd'], 'l': s['fL'], 'spc': s['fH'], 'gap': s['fd']}
    p = {k: (s[k] + float(x)) * d for k, x in f.items()}
    p.update(dl=d, lambda0=(s['wl'] + .5) * d / float(s['beta']), beta=float(s['beta']))
    if s['kind'] in ('three_port', 'N_port'):
        p['w'] += d
    np_ = [s['npx'], s['npy']]
    if s['dl'] not in EXACT:           # lengths away from ties
        for k in f:
            p[k] += d * (r.rand() - .5) * .1
    nch = s['n']
    ints = [(2 * p['l'] + p['L']) / d, (p['H'] + 2 * p['spc']) / d, (2 * p['l'] + p['H']) / d, p['w'] / d, p['d'] / 2 / d,
            p['d'] / 2 / d + .5, (4 * p['spc'] + 2 * p['L'] * nch + p['gap'] * nch) / d, (4 * p['spc'] + 2 * p['L'] + p['gap']) / d]
    if s['dl'] not in EXACT and any(tie(x) for x in ints) or tie(p['beta'] * p['lambda0'] / d):
        return
    m = float(s['epsm'])
    if s['ty'] == 'int' and m == int(m):
        m = int(m)
    if s['ty'] == 'int' and d == 1:
        p = {k: int(x) if x == int(x) else x for k, x in p.items()}
    if s['ty'] == 'numpy':
        p = {k: np.float64(x) for k, x in p.items()}
        np_ = list(np.array(np_))
    tr.own('NPML', np_)
    k = s['kind']
    bg = 1.
    kw = {}
    if k in ('three_port', 'N_port') and s['bg'] != 'default':
        bg = float(s['bg'])
        kw = dict(eps_background=bg)
    names = {'two_port': 'L H w l spc dl', 'three_port': 'L H w d l spc dl', 'N_port': 'L H w d l spc dl', 'ortho_port': 'L L2 H H2 w l dl',
             'accelerator': 'beta gap lambda0 L spc dl', 'accelerator_multi': 'beta gap lambda0 L spc dl'}[k].split()
    args = [p[x] for x in names]
    if k == 'N_port':
        args = [nch] + args
    if k == 'accelerator_multi':
        args = args[:-1] + [nch, d]
    fn = getattr(structures, k)
    for turn in range(2):
        with contextlib.redirect_stdout(io.StringIO()):
            x, exc = tr.call(lambda: fn(*args, np_, m, **kw))
        e = tr.rec('structure', None, kind=k, p={a: num(b) for a, b in p.items()}, np=[int(a) for a in np_], n=nch, epsm=num(m), bg=num(bg))
        e['exc'] = exc
        if exc == '':
            e.update(eps=tr.A(x[0]), design=tr.A(x[1]))
            x[0][:] = 7                # results are not shared between calls
            x[1][:] = 7


def regions(s, tr, r):
    N = (s['Nx'], s['Ny'])
    d = float(s['dl'])
    tr.own('shape', N)
    x, exc = tr.call(lambda: structures.get_grid(N, d))
    e = tr.rec('grid', None, N=list(N), dl=num(d))
    e['exc'] = exc
    if exc:
        return
    xs, ys = x
    e.update(xs=tr.A(xs), ys=tr.A(ys))
    if r.rand() < .3:                  # coordinates of any kind
        xs, ys = r.randn(*N), r.randn(*N)
    tr.own('xs', xs)
    tr.own('ys', ys)
    fns, recs = [], []
    for _ in range(s['nreg']):
        conds = []
        for v in ('x', 'y', 'ax'):
            if r.rand() < .6:
                lo, hi = np.sort(r.randn(2) * max(1, np.abs(xs).max()) * .7)
                if v == 'ax':
                    lo = max(lo, 0)
                conds.append((v, lo if r.rand() < .8 else None, hi if r.rand() < .8 else None))
        recs.append([dict(v=v, lo=[] if lo is None else [num(lo)], hi=[] if hi is None else [num(hi)]) for v, lo, hi in conds])

        def inside(x, y, conds=conds):
            ok = np.True_
            for v, lo, hi in conds:
                p = {'x': x, 'y': y, 'ax': abs(x)}[v]
                ok = ok * ((lo is None or lo < p) and (hi is None or p < hi))
            return np.bool_(ok)
        fns.append(inside)
    arg = fns[0] if s['single'] and len(fns) == 1 else tr.own('regions', fns)
    m = float(s['epsm'])
    bg = 1. if s['bg'] == 'default' else float(s['bg'])
    x, exc = tr.call(lambda: structures.apply_regions(arg, xs, ys, m, **({} if s['bg'] == 'default' else {'eps_background': bg})))
    e = tr.rec('regions', None, xs=tr.A(xs), ys=tr.A(ys), regs=recs, epsm=num(m), bg=num(bg))
    e['exc'] = exc
    if exc == '':
        e['ret'] = tr.A(x)
