from .common import *

NP = {'00': [0, 0], '03': [0, 3], '30': [3, 0], '24': [2, 4], 'frac': [2.9, 1.2], 'half': [0, 0.5],
      'numpy': None, 'big': [40, 3], 'neg0': [-1, 2], 'neg1': [2, -3], 'minus': [-0.5, 2], 'tuple': (2, 2),
      'array': None, 'one': [2], 'three': [1, 2, 3], 'none': None, 'empty': [], 'scalar': 5}
NUM = {'zero': 0, 'neg': -1.0, 'nan': float('nan')}
POLS = ['Ez', 'Hz', 'ez', 'Ex', '', 'EzHz', 'E', None]
EPS = ['real', 'lossy', 'int', 'c64', 'f32', '1d', 'row', 'col', 'F', 'view']


def eps_kind(k, r):
    sh = (r.randint(5, 9), r.randint(5, 9))
    e = 1 + 11 * r.rand(*sh)
    if k == 'lossy':
        return e - 1j * r.rand(*sh)
    return {'real': e, 'int': e.astype(int), 'c64': (e - 1j).astype(np.complex64), 'f32': e.astype(np.float32),
            '1d': e[:, 0].copy(), 'row': e[:1].copy(), 'col': e[:, :1].copy(), 'F': np.asfortranarray(e), 'view': e[::-1, 1:]}[k]


def npml(s, r):
    k = s['np']
    if k == 'numpy':
        return [np.int64(2), np.float64(1)]
    if k == 'array':
        return np.array([2, 2])
    x = NP[k]
    return list(x) if isinstance(x, list) else x


def run(s, tr):
    r = rng(s)
    om = omega(s) if s['om'] == 'good' else omega(s) * NUM[s['om']]
    L0 = NUM[s['lu']] if s['lu'] in NUM else float(s['lu'])
    ks = EPS if s['om'] == 'good' and s['lu'] in ('1e-6', '1') else EPS[r.randint(len(EPS)):][:1]
    n = 0
    for p in POLS:
        for k in ks if p in ('Ez', 'Hz') else ks[:1]:
            n += 1
            new_sim(tr, 'o', s, eps_kind(k, r), om=om, npml=npml(s, r), pol=p, L0=L0)
            if 'o' in tr.objs:      # only one live object at a time
                del tr.objs['o']
                tr.watched = []
