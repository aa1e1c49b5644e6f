"""Linear-algebra and grid helpers."""
import scipy.sparse as sp
from angler.linalg import solver_direct, solver_complex2real, solver_eigs, grid_average, dL, is_equal, construct_A
from .common import *
from rec import num


def matrix(kind, fill, n, r, fmt):
    M = {'complex': r.randn(n, n) + 1j * r.randn(n, n), 'real': r.randn(n, n), 'imag': 1j * r.randn(n, n),
         'hermitian': r.randn(n, n) + 1j * r.randn(n, n), 'symmetric': r.randn(n, n), 'zero': np.zeros((n, n)),
         'scaled': r.randn(n, n) + 1j * r.randn(n, n), 'int': r.randint(-3, 4, size=(n, n)), 'large': 3 * (r.randn(n, n) + 1j * r.randn(n, n))}[kind]
    if kind in ('hermitian', 'symmetric'):
        M = M + M.conj().T
    k = np.arange(n)
    if fill == 'sparse':
        M = M * ((r.rand(n, n) < .3) if kind not in ('hermitian', 'symmetric') else (np.abs(k[:, None] - k) % 3 == 0))
    elif fill == 'tridiag':
        M = M * (np.abs(k[:, None] - k) <= 1)
    elif fill == 'diag':
        M = M * np.eye(n)
    return M


def held(tr, name, A):
    for x in ('data', 'indices', 'indptr'):
        tr.own(name + '.' + x, getattr(A, x))
    return A


def run(s, tr):
    r = rng(s)
    globals()['op_' + s['op']](s, tr, r)


def system(s, r):
    n = s['n']
    A = matrix(s['mat'], s['fill'], n, r, s['fmt'])
    if s['mat'] != 'int':
        A = A + (2 + n) * np.eye(n) * (1 if s['mat'] in ('real', 'hermitian', 'symmetric') else 1j)
    else:
        A = A + 40 * np.eye(n, dtype=int)
    if s['mat'] == 'scaled':
        A = A * 1e-20
    b = {'complex': r.randn(n) + 1j * r.randn(n), 'real': r.randn(n), 'imag': 1j * r.randn(n), 'int': r.randint(-5, 6, size=n),
         'unit': np.eye(n)[r.randint(n)], 'zero': np.zeros(n), 'tiny': 1e-30 * r.randn(n)}[s['rhs']]
    return A, b


def shaped(s, b):
    n = len(b)
    if s['shape'] == 'column':
        return b.reshape((-1, 1))
    if s['shape'] == 'grid' and n % 2 == 0:
        return b.reshape((2, -1))
    return b


def solver_kw(s):
    kw = {} if s['solver'] == 'default' else {'solver': s['solver']}
    if s['timing']:
        kw['timing'] = True
    return kw


def lower(s):
    return 'scipy' if s['solver'] == 'default' else s['solver'].lower()


def op_direct(s, tr, r):
    A, b = system(s, r)
    S = held(tr, 'A', getattr(sp, s['fmt'] + '_matrix')(A))
    b = tr.own('b', shaped(s, b))
    x, exc = tr.call(lambda: solver_direct(S, b, **solver_kw(s)))
    e = tr.rec('direct', None, A=tr.A(A), b=tr.A(b), lower=lower(s), ret=tr.S(x) if exc == '' else [])
    e['exc'] = exc


def op_c2r(s, tr, r):
    A, b = system(s, r)
    A2 = matrix(s['mat2'], s['fill'], s['n'], r, s['fmt'])
    A2 = A2 * (np.abs(A).max() / 40) if s['mat'] in ('scaled', 'int') else A2 * .3
    S, S2 = (held(tr, 'A', getattr(sp, s['fmt'] + '_matrix')(M)) for M in (A, A2))
    b = tr.own('b', shaped(s, b))
    x, exc = tr.call(lambda: solver_complex2real(S, S2, b, **solver_kw(s)))
    e = tr.rec('c2r', None, A=tr.A(A), A2=tr.A(A2), b=tr.A(b), lower=lower(s), ret=tr.S(x) if exc == '' else [])
    e['exc'] = exc


def op_eigs(s, tr, r):
    A = matrix(s['mat'], s['fill'], s['n'], r, s['fmt'])
    A = np.asarray(A, dtype=complex if np.iscomplexobj(A) else float) + np.diag(np.arange(s['n']) * .7)
    if s['mat'] == 'scaled':
        A = A * 1e-6
    w, v = np.linalg.eig(A)
    v = v / np.linalg.norm(v, axis=0)
    if np.linalg.cond(v) > 1e6:
        return
    big = np.abs(w).max()
    g = {'zero': 0., 'inside': np.real(w[r.randint(len(w))]) + .013 * big, 'outside': 1.3 * big,
         'complex': w[r.randint(len(w))] + (.02 + .03j) * big}[s['guess']]
    if np.abs(w - g).min() < 1e-4 * big:
        return
    if not np.iscomplexobj(A):
        g = float(np.real(g))
    S = held(tr, 'A', getattr(sp, s['fmt'] + '_matrix')(A))
    v0 = None if s['oneD'] else tr.own('guess', r.randn(s['n']))
    k = dict(timing=True) if s['timing'] else {}
    if g != 0 or s['same'] == 'same':
        k['guess_value'] = g
    if v0 is not None:
        k['guess_vector'] = v0
    x, exc = tr.call(lambda: solver_eigs(S, s['neigs'], **k))
    e = tr.rec('eigs', None, A=tr.A(A), n=s['neigs'], guess=num(g), all=tr.S(w), allv=tr.A(v.T),
               vals=tr.S(x[0]) if x else [], vecs=tr.A(x[1].T) if x else 0)
    e['exc'] = exc


def op_average(s, tr, r):
    sh = (s['Nx'], s['Ny'])
    a = eps_of(s['epsk'], sh, r)
    if s['oneD']:
        a = a.reshape(-1)
    a = tr.own('array', a)
    x, exc = tr.call(lambda: grid_average(a, s['axis']))
    e = tr.rec('average', None, arg=tr.A(a), w=s['axis'], oneD=s['oneD'], ret=tr.A(x))
    e['exc'] = exc


def op_spacing(s, tr, r):
    lo = r.randn(2)
    rs = [tr.own('range', [float(lo[k]), float(lo[k] + 1 + r.rand())]) for k in (0, 1)]
    N = [s['Nx'], s['Ny']][:1 if s['oneD'] else 2]
    N = tr.own('N', np.array(N))
    x, exc = tr.call(lambda: dL(N, rs[0]) if s['oneD'] else dL(N, *rs))
    e = tr.rec('spacing', None, n=[int(k) for k in N], r=[[num(v) for v in q] for q in rs[:len(N)]], ret=tr.S(x) if exc == '' else [])
    e['exc'] = exc


def op_equal(s, tr, r):
    A = matrix(s['mat'], s['fill'], s['n'], r, s['fmt'])
    B = np.array(A)
    i, j = r.randint(s['n'], size=2)
    if s['same'] == 'entry':
        B[i, j] += 1
    elif s['same'] == 'tiny' and B.dtype.kind != 'i':
        B[i, j] += 1e-9
    elif s['same'] == 'pattern':
        B[i, j] = 0
    elif s['same'] == 'other':
        B = B.T
    f = getattr(sp, s['fmt'] + '_matrix')
    S = held(tr, 'A', f(A))
    T = S if s['same'] == 'same' else held(tr, 'B', sp.csr_matrix(B))
    x, exc = tr.call(lambda: is_equal(S, T))
    e = tr.rec('equal', None, A=tr.A(A), B=tr.A(B), ret=bool(x))
    e['exc'] = exc


def op_operator(s, tr, r):
    sh = (s['Nx'], s['Ny'])
    eps = tr.own('eps', eps_of(s['epsk'], sh, r))
    h, L0, om = dl(s), float(s['L0']), omega(s)
    xr, yr = tr.own('xrange', [0, h * sh[0]]), tr.own('yrange', [0, h * sh[1]])
    np_ = tr.own('NPML', [s['npx'], s['npy']])
    kw = {} if s['avg'] == 'default' else {'averaging': s['avg'] == 'yes'}
    x, exc = tr.call(lambda: construct_A(om, xr, yr, eps, np_, s['pol'], L0, **kw))
    v = r.randn(*sh) + 1j * r.randn(*sh)
    f = v.reshape(-1)
    e = tr.rec('operator', None, pol=s['pol'], Nx=sh[0], Ny=sh[1], dl=num(h), L0=num(L0), om=num(om), np=list(np_), eps=tr.A(eps),
               avg=s['avg'] != 'no', v=tr.A(v), ret=tr.A(x[0].dot(f).reshape(sh)) if x else 0,
               ders=[tr.A(x[1][k].dot(f).reshape(sh)) for k in ('Dxf', 'Dxb', 'Dyf', 'Dyb')] if x else [])
    e['exc'] = exc
