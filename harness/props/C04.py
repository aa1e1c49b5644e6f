from .common import *
from .session import do_probe, rand_probe, add_nl
from rec import num


def side(j1, j2):
    """centre and width of the line over the cells j1..j2 (1-based)"""
    w = j2 - j1 + 1
    return j1 - 1 + (w + 1) // 2, w


def box(tr, o, i1, i2, j1, j2):
    sim = tr.objs[o]
    cy, wy = side(j1, j2)
    cx, wx = side(i1, i2)
    Nx, Ny = sim.Nx, sim.Ny
    px = [do_probe(tr, o, 'x', (i % Nx, cy), wy, False) for i in (i1 - 1, i2)]
    py = [do_probe(tr, o, 'y', (cx, j % Ny), wx, False) for j in (j1 - 1, j2)]
    if any(p is None for p in px + py):
        return
    tr.rec('box', o, i1=i1, i2=i2, j1=j1, j2=j2, px=[num(x) for x in px], py=[num(x) for x in py])


def run(s, tr):
    r = rng(s)
    sh = (s['Nx'], s['Ny'])
    if new_sim(tr, 'a', s, eps_of(s['epsk'], sh, r)) is None:
        return
    set_src(tr, 'a', src_of(s['srck'], sh, r))
    do_probe(tr, 'a', 'x', (0, sh[1] // 2), 1, False)      # nothing solved yet
    E = solve(tr, 'a', s['avg'])
    if E is None:
        return
    for d in ('x', 'y'):
        n = sh if d == 'x' else sh[::-1]
        m = n[1]                                      # full span
        c = (n[1] + 1) // 2
        line = int(r.randint(n[0]))
        do_probe(tr, 'a', d, (line, c) if d == 'x' else (c, line), m, False)
        for _ in range(4):
            c, w = rand_probe(r, sh, d)
            do_probe(tr, 'a', d, c, w, False)
    do_probe(tr, 'a', r.choice(['z', '', 'X', 'xy']), (1, 1), 1, False)
    if not (s['pol'] == 'Hz' and not s['avg']):
        npx, npy = s['npx'], s['npy']
        lx, ly = (npx + 2 if npx else 1), (npy + 2 if npy else 1)
        hx, hy = sh[0] - npx - (1 if npx else 0), sh[1] - npy - (1 if npy else 0)
        for _ in range(4):
            if hx < lx or hy < ly:
                break
            a = sorted(r.randint(lx, hx + 1, size=2))
            b = sorted(r.randint(ly, hy + 1, size=2))
            box(tr, 'a', int(a[0]), int(a[1]), int(b[0]), int(b[1]))
        if hx >= lx and hy >= ly:
            box(tr, 'a', lx, hx, ly, hy)
    if s['nl']:
        for d in 'xy':
            c, w = rand_probe(r, sh, d)
            do_probe(tr, 'a', d, c, w, True)              # no nonlinear fields yet
        if s['pol'] == 'Hz':          # (nothing nonlinear, but another source)
            set_src(tr, 'a', src_of('random', sh, r))
        else:
            add_nl(tr, 'a', 1e-2 * float(s['L0'])**2 / 3 / np.abs(E[2]).max()**2, np.ones(sh), False, 1., given=False)
        solve_nl(tr, 'a', 'born', maxit=5)
        for d in 'xyxy':
            c, w = rand_probe(r, sh, d)
            do_probe(tr, 'a', d, c, w, bool(r.rand() < .7))
