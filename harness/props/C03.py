from .common import *
from rec import num


def shift(s, tr):
    r = rng(s)
    sh = (s['Nx'], s['Ny'])
    e, q = eps_of(s['epsk'], sh, r), src_of(s['srck'], sh, r)
    sx, sy = (int(r.randint(min(1, n - 1), n)) if s[p] == 0 else 0 for n, p in zip(sh, ('npx', 'npy')))
    roll = lambda a: np.roll(np.roll(a, sx, axis=0), sy, axis=1)
    for o, ee, qq in (('a', e, q), ('b', roll(e), roll(q))):
        if new_sim(tr, o, s, ee) is None:
            return
        set_src(tr, o, qq)
        if solve(tr, o) is None:
            return
        tr.rec('interior', o)
    tr.rec('shifted', 'a', o2='b', sx=sx, sy=sy)


def layers(s, tr):
    r = rng(s)
    I = 10
    n, m = (I if s['axis'] != 'y' else s['span']), (s['oth'] if s['axis'] != 'x' else s['span'])
    q0 = np.zeros((n, m), complex)
    for _ in range(3):
        q0[r.randint(n), r.randint(m)] = r.randn() + 1j * r.randn()
    e0 = np.where(r.rand(n, m) < .3, 1., float(s['bg'])) + 3 * r.rand() * (r.rand(n, m) < .2)
    bg = float(s['bg'])
    t = dict(s, res=s['res'] * np.sqrt(max(bg, 1)))
    at = {}
    for o, npml, extra in (('a', s['np'], 0), ('b', s['np'] + s['more'], s['extra'])):
        N, at[o], P = [], [], []
        for ax, k in (('x', n), ('y', m)):
            l = npml + (s['dnp'] if ax == 'y' else 0)
            d = l + 2 + extra if ax in s['axis'] else 0
            P.append(l if ax in s['axis'] else 0)
            N.append(k + 2 * d)
            at[o].append(d)
        e, q = bg * np.ones(N), np.zeros(N, complex)
        w = (slice(at[o][0], at[o][0] + n), slice(at[o][1], at[o][1] + m))
        e[w], q[w] = e0, q0
        if new_sim(tr, o, t, e, npml=P) is None:
            return
        set_src(tr, o, q)
        if solve(tr, o, s['pol'] == 'Hz') is None:
            return
        tr.rec('interior', o)
        tr.rec('gives', o)
        sim = tr.objs[o]
        for d in s['axis']:
            l = P['xy'.index(d)]
            nl, nt = (N[0], N[1]) if d == 'x' else (N[1], N[0])
            pr = lambda i: sim.flux_probe(d, [i, (nt + 1) // 2] if d == 'x' else [(nt + 1) // 2, i], nt)
            S = [pr(i) for i in range(nl)]
            tr.rec('layer', o, dir=d, side='high', ret=[num(x) for x in S[nl - l - 1:]])
            tr.rec('layer', o, dir=d, side='low', ret=[num(-x) for x in S[:l + 2][::-1]])
    tr.rec('agree', 'a', o2='b', at=at['a'], at2=at['b'], n=n, m=m)


def run(s, tr):
    (shift if s['kind'] == 'shift' else layers)(s, tr)
