"""Declaring objectives and evaluating them on the declared fields."""
from .opt import *
from .C07 import setup, add_kerr
from .C10 import reweight

COMPONENTS = ('Ex', 'Ey', 'Ez', 'Hx', 'Hy', 'Hz')


def declared(args):
    return dict(args=[dict(c=c, nl=bool(nl)) for c, nl in args])


def declare(s, tr, r):
    args = [(s['a%d' % i], s['n%d' % i]) for i in range(1, s['nargs'] + 1)]
    if s['bad'] != 'none':
        i = r.randint(len(args))
        args[i] = (s['bad'], args[i][1])
    n = s['nparams'] if r.rand() < .6 else s['nargs']
    names = ['p%d' % i for i in range(n)]
    if s['style'] == 'lambda':
        J = eval('lambda %s: %s' % (', '.join(names), ' + '.join('npa.sum(npa.abs(%s))' % x for x in names) or '1.'), {'npa': npa})
    else:
        d = {'npa': npa}
        exec('def J(%s):\n    return %s' % (', '.join(names), ' + '.join('npa.sum(npa.abs(%s))' % x for x in names) or '1.'), d)
        J = d['J']
    box = {}

    def make():
        l = []
        for i, (c, nl) in enumerate(args):
            a = obj_arg('x%d' % i, component=c, nl=nl) if nl or s['style'] != 'default' else obj_arg('x%d' % i, c)
            l.append(a)
        box['l'] = l
        return Objective(J, l[0] if s['single'] and len(l) == 1 else tr.own('argument list', l))
    o, exc = tr.call(make)
    e = tr.rec('new_obj', None, nargs=len(args), nparams=n, good=all(c in COMPONENTS for c, nl in args))
    e['exc'] = exc
    if exc == '':
        x, exc = tr.call(lambda: o.is_linear())
        e = tr.rec('is_linear', None, ret=bool(x), **declared(args))
        e['exc'] = exc


def run(s, tr):
    r = rng(s)
    if s['op'] == 'declare':
        return declare(s, tr, r)
    sh = (s['Nx'], s['Ny'])
    des = setup(s, tr, r)
    if des is None:
        return
    sim = tr.objs['a']
    sc = scales(sim)
    args = [(s['a%d' % i], s['n%d' % i]) for i in range(1, s['nargs'] + 1)]
    if s['pol'] == 'Ez':
        add_kerr(s, tr, 'a', des, r, sc['Ez'])
    nls = nls_of(tr, 'a')
    if nls and not nl_converges(sim, nls):
        return
    alien = 0 < s['alien'] <= len(args)
    if alien:
        k = s['alien'] - 1
        other = ('Hz', 'Ex', 'Ey') if s['pol'] == 'Ez' else ('Ez', 'Hx', 'Hy')
        args[k] = (other[r.randint(3)], False)
    ob = rand_obj(r, args, [s['k%d' % i] for i in range(1, s['nterms'] + 1)], sc, sh)
    real = ob.make() if not (s['single'] and len(args) == 1) else Objective(ob.J(), ob.arg_list()[0])
    opt = des.opt(tr, real, sim)
    if 'share' in s['prog']:           # another objective with the same argument objects
        Objective(reweight(ob, r).J(), real.arg_list)
    for p in s['prog'].split(','):
        if p == 'J':
            compute_J(tr, 'a', opt, ob)
        elif p == 'dJ' and not alien:
            compute_dJ(tr, 'a', opt, ob, des, r, n=2, cells=2)
        elif p == 'swap':
            ob = reweight(ob, r)
            real.J = ob.J()
        elif p == 'is':
            x, exc = tr.call(lambda: real.is_linear())
            e = tr.rec('is_linear', None, ret=bool(x), **declared(ob.args))
            e['exc'] = exc
        elif p == 'nl':
            solve_nl(tr, 'a', 'born')
