"""Derivative checks, frequency and power scans."""
from .runs import *
from .common import C0


def check_deriv(tr, o, opt, des, npts, drho, base='', cells=()):
    if not (np.array(des.mask) == 1).any():
        return          # no cell to check
    box = tr.call(lambda: opt.check_deriv(Npts=npts, d_rho=drho))
    r, exc = box
    e = tr.rec('check_deriv', o, des=des.rec(tr), npts=npts, drho=num(drho), base=base, cells=list(cells),
               avm=tr.S(r[0]) if r else [], num=tr.S(r[1]) if r else [])
    e['exc'] = exc
    return e


def scan_frequency(tr, o, opt, nf, df, objs=()):
    r, exc = tr.call(lambda: opt.scan_frequency(Nf=nf, df=df, pbar=False))
    e = tr.rec('scan_frequency', o, nf=nf, df=num(df), objs=list(objs), freqs=tr.S(r[0]) if r else [],
               vals=tr.S(r[1]) if r else [], width=num(r[2]) if r else '')
    e['exc'] = exc
    return e


def scan_power(tr, o, opt, probes, ns, smin, smax, solver, objs, modes):
    """probes: [(dir, centre, width, nl)] or 'count'"""
    fs = []
    calls = []
    for p in probes:
        if p == 'count':
            def f(sim, n=[0]):
                n[0] += 1
                return float(n[0])
        else:
            def f(sim, p=p):
                return sim.flux_probe(p[0], list(p[1]), p[2], nl=p[3])
        fs.append(f)
    kw = {} if solver == 'default' else {'solver': solver}
    if smin is not None:
        kw.update(s_min=smin, s_max=smax)
    before = [mode_rec(m) for m in tr.objs[o].modes]
    r, exc = tr.call(lambda: opt.scan_power(fs, Ns=ns, **kw) if fs else opt.scan_power(Ns=ns, **kw))
    e = tr.rec('scan_power', o, given=bool(fs), ns=ns, smin=num(smin), smax=num(smax), objs=objs,
               probes=[dict(dir='count', c=[0, 0], w=1, nl=False) if p == 'count' else dict(dir=p[0], c=[int(x) for x in p[1]], w=int(p[2]), nl=bool(p[3])) for p in probes],
               powers=tr.S(r[0]) if r else [], trans=[tr.S(t) for t in r[1]] if r else [],
               modes=[before, [mode_rec(m) for m in tr.objs[o].modes]])
    e['exc'] = exc
    return e


def mode_rec(m):
    return dict(neff=num(m.neff), dir=m.direction_normal, c=list(m.center), w=m.width, scale=num(m.scale), order=m.order)
