"""Optimization runs observed through runs of 0, 1, 2, ... iterations from copies of one start."""
import copy
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from .opt import *
from .session import index_shift


def run_opt(tr, o, opt, des, method, n, step, b1=None, b2=None, limit=None, nls=None):
    sim = tr.objs[o]
    kw = dict(method=method, Nsteps=n, step_size=step, verbose=False)
    if b1 is not None:
        kw.update(beta1=b1, beta2=b2)
    recs0, amps0 = tr.S(opt.objfn_list), tr.S(opt.src_amplitudes)
    nls = nls_of(tr, o) if nls is None else nls
    _, exc = tr.call(lambda: opt.run(**kw))
    e = tr.rec('run', o, sure=bool(exc == '' and sure(sim, nls)), des=des.rec(tr), method=method, lower=method.lower(), n=int(n), step=num(step),
               limit='' if limit is None else num(limit), recs0=recs0, amps0=amps0,
               recs=tr.S(opt.objfn_list), amps=tr.S(opt.src_amplitudes))
    e['exc'] = exc
    return exc == ''


def sure(sim, nls):
    return not nls or nl_converges(sim, nls)


def fork(tr, opt, o, name):
    """copy of optimization and simulation, under a new name"""
    opt2, sim2 = copy.deepcopy((opt, tr.objs[o]))
    tr.objs[name] = sim2
    e = tr.rec('copy', o, o2=name)
    e['obs2'] = tr.obs(sim2)
    if hasattr(tr, 'nls'):
        tr.nls[name] = tr.nls.get(o, [])
    return opt2, sim2


def forget(tr, o):
    tr.objs.pop(o, None)


def fresh(tr, o, ob, des):
    return Optimization(ob.make(), tr.objs[o], des.mask, eps_m=des.epsm, R=des.R or None, eta=des.eta, beta=des.beta)


def trajectory(tr, o, opt, ob, des, r, method, K, step, b1=None, b2=None, limit=None, tag='k'):
    """prefixes of a run of K iterations"""
    low = method.lower()
    names, runs = [], []
    nls = nls_of(tr, o)
    for k in range(K + 1):
        name = '%s%d' % (tag, k)
        optk, simk = fork(tr, opt, o, name)
        # (scipy performs one iteration when asked for none)
        if not run_opt(tr, name, optk, des, method if k or low != 'lbfgs' else 'gd', k, step, b1, b2, limit):
            return
        if k and len(optk.objfn_list) == len(runs[-1].objfn_list):
            forget(tr, name)        # ended early
            break
        names.append(name)
        runs.append(optk)
        tr.objs.pop(name)           # out of the way of the frame conditions
    srcs = [np.array(p.simulation.src) for p in runs]
    used = []
    for k, name in enumerate(names):
        tr.objs[name] = runs[k].simulation
        sim = tr.objs[name]
        if low == 'lbfgs' and limit is not None and k:
            set_src(tr, name, srcs[k - 1])      # in force when the record was taken
        if not np.all(np.isfinite(np.array(sim.eps_r))) or not sure(sim, nls):
            forget(tr, name)
            break
        f = fresh(tr, name, ob, des)
        compute_J(tr, name, f, ob)
        if limit is not None:
            index_shift(tr, name)
        if low != 'lbfgs' and k + 1 < len(names):
            if limit is not None:
                set_src(tr, name, srcs[k + 1])
            if not sure(sim, nls):
                forget(tr, name)
                break
            compute_dJ(tr, name, f, ob, des, r, n=1, cells=2)
        used.append(name)
        forget(tr, name)
    if low != 'lbfgs' and len(used) < len(names) and used:
        pass        # the last usable copy has its gradient, the next one was observed after its run
    if len(used) > 1:
        tr.rec('trajectory', None, objs=used, lower=low, step=num(step), b1=num(b1 if b1 is not None else .9),
               b2=num(b2 if b2 is not None else .999), limit='' if limit is None else num(limit), des=des.rec(tr))


def curve(tr, opt, norm):
    box = {}

    def f():
        ax = opt.plt_objs(norm=norm) if norm else opt.plt_objs()
        box['x'], box['y'] = ax.lines[-1].get_xdata(), ax.lines[-1].get_ydata()
    _, exc = tr.call(f)
    plt.close('all')
    e = tr.rec('curve', None, norm=norm, recs=tr.S(opt.objfn_list), amps=tr.S(opt.src_amplitudes),
               x=tr.S(box.get('x', [])), y=tr.S(box.get('y', [])))
    e['exc'] = exc
