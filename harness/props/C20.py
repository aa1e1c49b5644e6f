"""Plots.  Whatever writes or removes files runs in a child process without privileges,
on a scratch directory of its own."""
import copy
import hashlib
import io
import os
import pickle
import shutil
import tempfile
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from matplotlib.animation import AbstractMovieWriter
from matplotlib.colors import LogNorm
from angler.plot import plt_base_ani, Temp_plt
from .opt import *
from .C07 import setup, add_kerr
from .runs import curve
from rec import num

NOBODY = 65534


def picture(tr, ax):
    """what one set of axes shows"""
    im = ax.images[-1]
    f = tr.S if tr is not None else list
    a = np.array(np.ma.filled(im.get_array(), np.nan))
    return dict(img=tr.A(a) if tr is not None else a, clim=f(im.get_clim()), log=isinstance(im.norm, LogNorm), ext=f(im.get_extent()),
                axl=f(list(ax.get_xlim()) + list(ax.get_ylim())), nax=len(ax.figure.axes), ncoll=len(ax.collections))


def draw(tr, o, s, r):
    sim = tr.objs[o]
    what = s['what']
    sh = sim.eps_r.shape
    kw = dict(cbar=bool(s['cbar']), outline=bool(s['outline']), tiled_y=s['t'])
    e = dict(what=what, nl=False, normalize=True, vmin=[], vmax=[], log=False, t=s['t'], cbar=s['cbar'], outline=bool(kw['outline']), given=s['given'])
    if what in ('abs', 're') and s['nl']:
        kw['nl'] = e['nl'] = True
    if what == 'diff' and not s['normalize']:
        kw['normalize'] = e['normalize'] = False
    F = (sim.fields_nl if e['nl'] else sim.fields)[sim.pol]
    m = float(np.abs(F).max()) if F is not None else 1.
    if what in ('abs', 'diff') and s['vmax'] == 'some':
        kw['vmax'] = m * (.3 + r.rand())
        e['vmax'] = [num(kw['vmax'])]
    if what == 'abs' and (s['vmin'] == 'some' or s['log']):
        kw['vmin'] = m * .2 * (r.rand() + .1)
        e['vmin'] = [num(kw['vmin'])]
    if what == 'abs' and s['log'] and m > 0:
        kw['logscale'] = e['log'] = True
    if s['given']:
        _, axs = plt.subplots(1, 1)
        kw['ax'] = axs
        if r.rand() < .5:
            plt.subplots(1, 2)          # and others are the current ones
    before = set(plt.get_fignums())

    def enc(ax):
        return dict(d=picture(tr, ax), same=s['given'] and ax is kw['ax'], fresh=ax.figure.number not in before, nimg=len(ax.images))
    try:
        tr.do('draw', o, lambda: getattr(sim, 'plt_' + what)(**kw), enc=enc, **e)
    finally:
        plt.close('all')


class Grab(AbstractMovieWriter):
    def __init__(self, tr):
        self.tr, self.fr = tr, []
        self.fps, self.dpi, self.outfile, self.metadata, self.codec, self.bitrate, self.frame_format = 5, 50, '', {}, None, 1, 'x'

    def setup(self, fig, outfile, dpi=None):
        self.fig = fig

    def grab_frame(self, **kw):
        self.fr.append(picture(self.tr, self.fig.axes[0]))

    def finish(self):
        pass


def ani(tr, s, r, F):
    tr.own('field', F)
    w = Grab(tr)

    def f():
        a = plt_base_ani(F, cbar=s['cbar'], **({} if s['nf'] == 8 else dict(Nframes=s['nf'])))
        a.save('nowhere.none', writer=w)
    _, exc = tr.call(f)
    plt.close('all')
    e = tr.rec('ani', None, F=tr.A(F), n=40 if s['nf'] == 8 else s['nf'], frames=w.fr)
    e['exc'] = exc


def run(s, tr):
    r = rng(s)
    sh = (s['Nx'], s['Ny'])
    if s['op'] in ('temp', 'temp2', 'plot_it'):
        try:
            return temporary(s, tr, r)
        except NoSandbox:
            return
    if new_sim(tr, 'a', s, eps_of(s['epsk'], sh, r)) is None:
        return
    sim = tr.objs['a']
    set_src(tr, 'a', src_of(s['srck'], sh, r))
    if s['op'] == 'ani':
        solve(tr, 'a')
        F = np.array(sim.fields[sim.pol])
        return ani(tr, s, r, F if s['nl'] else np.real(F) if s['log'] else r.randn(*sh) + 1j * r.randn(*sh))
    if s['pol'] == 'Ez' and 'nl' in s['prog']:
        m = scales(sim)['Ez']
        kerr(tr, 'a', .01 * float(s['L0'])**2 / 3 / m**2, np.ones(sh), False, 12.25)
        if not nl_converges(sim, nls_of(tr, 'a')):
            return
    for p in s['prog'].split(','):
        if p == 'solve':
            solve(tr, 'a')
        elif p == 'solve_nl':
            solve_nl(tr, 'a', 'born')
        elif p == 'set_eps':
            set_eps(tr, 'a', eps_of('real', sh, r))
        elif p == 'set_src':
            set_src(tr, 'a', src_of('random', sh, r))
    for i, what in enumerate(r.permutation(['abs', 're', 'diff', 'eps', 'abs', 'abs', 're'])[:{'draw': 2, 'draw2': 4, 'draw3': 7}[s['op']]]):
        q = dict(s, what=str(what))
        if i:
            q.update({k: bool(r.rand() < .5) for k in ('nl', 'cbar', 'outline', 'given', 'normalize')}, log=r.rand() < .3, t=[1, 1, 2, 3][r.randint(4)],
                     vmin=['none', 'none', 'some'][r.randint(3)], vmax=['none', 'none', 'some'][r.randint(3)])
        draw(tr, 'a', q, r)
    # the objective curve of an optimization with a history
    ob = Obj([(s['pol'], False)], [(1., [('abs2', 0, np.ones(sh))])])
    opt = Design(np.ones(sh, int), [s['npx'], s['npy']], 0, .5, 1., 4.).opt(tr, ob.make(), sim)
    n = s['steps']
    opt.objfn_list[:] = [float(x) for x in r.randn(n)]
    opt.src_amplitudes[:] = [float(x) for x in 10**r.randn(n)]
    curve(tr, opt, s['norm'])


# ---------------------------------------------------------------- temporary plots
def listing(d):
    out = []
    for n in sorted(os.listdir(d)):
        p = os.path.join(d, n)
        if os.path.islink(p):
            k = 'linkdir' if os.path.isdir(p) else 'link' if os.path.exists(p) else 'dangling'
            h = os.readlink(p)
        elif os.path.isdir(p):
            k, h = 'dir', repr([(a, sorted(b), [(x, open(os.path.join(a, x), 'rb').read()) for x in sorted(c) if os.path.isfile(os.path.join(a, x))])
                                for a, b, c in sorted(os.walk(p))])
        else:
            k, h = 'file', open(p, 'rb').read().hex()
        out.append(dict(n=n, k=k, h=hashlib.md5(h.encode()).hexdigest()))
    return out


def outside(root, folder):
    """digest of everything but the folder"""
    h = hashlib.md5()
    for a, b, c in sorted(os.walk(root)):
        if os.path.realpath(a) == os.path.realpath(folder):
            b[:] = []
            continue
        b[:] = sorted(x for x in b if os.path.realpath(os.path.join(a, x)) != os.path.realpath(folder))
        # (missing parents of the folder are made)
        h.update(repr((os.path.relpath(a, root), [x for x in b if not folder.startswith(os.path.join(a, x) + os.sep)])).encode()
                 if not folder.startswith(a + os.sep) or a == root else b'')
        for x in sorted(c):
            h.update(x.encode())
            h.update(open(os.path.join(a, x), 'rb').read() if os.path.isfile(os.path.join(a, x)) else b'')
    return h.hexdigest()


class NoSandbox(Exception):
    """privileges cannot be given up here: files are left alone"""


def unprivileged(fn):
    """the value of fn() computed in a child that can reach nothing but the scratch directory it is given"""
    plt.figure()
    plt.savefig(io.BytesIO(), format='png')     # loads what drawing needs
    plt.close('all')
    root = tempfile.mkdtemp(prefix='angler_plots_')
    root_id = os.getuid() == 0
    if root_id:
        os.chown(root, NOBODY, NOBODY)
    a, b = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(a)
            try:
                if root_id:
                    os.setgroups([])
                    os.setgid(NOBODY)
                    os.setuid(NOBODY)
                os.chdir(root)
                open('writable', 'w').close()
                os.unlink('writable')
                ready = True
            except OSError:
                ready = False
            out = pickle.dumps(('ok', fn(root)) if ready else ('skip', None))
        except BaseException as e:
            out = pickle.dumps(('fail', repr(e)[:300]))
        with os.fdopen(b, 'wb') as f:
            f.write(out)
        os._exit(0)
    os.close(b)
    try:
        with os.fdopen(a, 'rb') as f:
            data = f.read()
    finally:
        try:
            os.kill(pid, 9)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)
        shutil.rmtree(root, ignore_errors=True)
    k, v = pickle.loads(data) if data else ('fail', 'the child died')
    if k == 'skip':
        raise NoSandbox()
    if k != 'ok':
        raise RuntimeError(v)
    return v


def fill(s, root, folder):
    os.makedirs(os.path.join(root, 'elsewhere', 'd'))
    for n in ('keep.txt', 'd/deep.txt'):
        with open(os.path.join(root, 'elsewhere', n), 'w') as f:
            f.write(n)
    if not s['files']:
        return
    os.makedirs(folder)
    for k in s['files']:
        if k in ('file', 'png', 'hidden', 'it'):
            with open(os.path.join(folder, {'file': 'notes', 'png': 'old.png', 'hidden': '.hidden', 'it': 'it000099.png'}[k]), 'w') as f:
                f.write('old')
        elif k == 'many':
            for i in range(70):
                open(os.path.join(folder, 'a%02d.txt' % i), 'w').close()
        elif k == 'dir':
            os.makedirs(os.path.join(folder, 'sub', 'sub2'))
            for n in ('sub/a.png', 'sub/sub2/b.txt'):
                with open(os.path.join(folder, n), 'w') as f:
                    f.write('in sub')
        else:
            os.symlink({'link': os.path.join(root, 'elsewhere', 'keep.txt'), 'linkdir': os.path.join(root, 'elsewhere', 'd'),
                        'dangling': os.path.join(root, 'nothing')}[k], os.path.join(folder, k))


def size_of(path):
    try:
        return list(plt.imread(path).shape[:2])
    except Exception:
        return [0, 0]


def temporary(s, tr, r):
    sh = (s['Nx'], s['Ny'])
    des = setup(s, tr, r)
    if des is None:
        return
    sim = tr.objs['a']
    sc = scales(sim)
    if not np.isfinite(sc['Ez']) or sc['Ez'] == 0:
        return
    enl = 'enl' in s['whats']
    if enl:
        kerr(tr, 'a', 1e-3 * float(s['L0'])**2 / 3 / sc['Ez']**2, np.ones(sh), False, 12.25)
        if not nl_converges(sim, nls_of(tr, 'a')):
            return
    ob = rand_obj(r, [('Ez', enl)], ['abs2'], sc, sh)
    opt = des.opt(tr, ob.make(), sim)
    # below the strongest field, whatever the state
    sim.W_in = (sc['Ez'] * 1e-6)**2
    tr.rec('prepare', 'a')
    figsize = (s['it'] + 1, 2)
    kw = dict(it_plot=s['it'], figsize=figsize, dpi=40)
    if s['whats'] != 'default':
        kw['plot_what'] = tuple(s['whats'].split(','))
    name = os.path.join('figs', 'temp') if s['deep'] else 'temp'
    sub = name + '/' if s['slash'] else name
    w1 = s['whats'] == 'default' and ('eps',) or kw['plot_what']
    if s['op'] == 'plot_it':
        compute_J(tr, 'a', opt, ob)
        pre = [1.5, -2., 3.][:s['steps']]
        opt.objfn_list[:] = pre

        def f(root):
            os.makedirs(os.path.join(root, name))
            opt.temp_plt = Temp_plt(folder=os.path.join(root, sub), **kw)
            opt.plot_it(s['steps'])
            axs = plt.gcf().axes
            parts = []
            for ax, w in zip(axs, w1):
                p = dict(title=ax.get_title(), x=[], y=[])
                if w == 'of':
                    p.update(x=list(map(float, ax.lines[-1].get_xdata())), y=list(map(float, ax.lines[-1].get_ydata())))
                else:
                    p['d'] = picture(None, ax)
                parts.append(p)
            return parts, sorted(os.listdir(os.path.join(root, name)))
        try:
            x, exc = unprivileged(f), ''
        except RuntimeError as ex:
            x, exc = None, str(ex)
        e = tr.rec('plot_it', 'a', whats=list(w1), recs=tr.S(pre), k=s['steps'], win=num(sim.W_in))
        e['exc'] = exc
        if exc == '':
            e['new'] = x[1]
            e['parts'] = []
            for p in x[0]:
                if 'd' in p:
                    d = p['d']
                    p['d'] = dict(d, img=tr.A(d['img']), clim=tr.S(d['clim']), ext=tr.S(d['ext']), axl=tr.S(d['axl']))
                p.update(x=tr.S(p['x']), y=tr.S(p['y']))
                e['parts'].append(p)
        return
    t, t2 = copy.deepcopy((opt, sim))
    with np.errstate(all='ignore'):
        t.run('GD', Nsteps=0)
        G = np.abs(t.compute_dJ(t2, des.mask)[des.mask == 1])
    if not len(G) or not np.isfinite(G.max()) or G.max() == 0:
        return
    step = .05 if s['method'] == 'adam' else .05 / G.max()
    if enl:
        step *= .01

    def go(tp):
        o2 = copy.deepcopy(opt)
        n0 = 0
        if s['twice']:
            o2.run(s['method'], Nsteps=2, step_size=step, verbose=False, **({} if tp is None else {'temp_plt': tp}))
            n0 = len(o2.objfn_list)
        o2.run(s['method'], Nsteps=s['steps'], step_size=step, verbose=False, **({} if tp is None else {'temp_plt': tp}))
        return n0, list(map(float, o2.objfn_list)), np.array(o2.simulation.eps_r), np.array(o2.simulation.rho)

    def f(root):
        folder = os.path.join(root, name)
        fill(s, root, folder)
        x = dict(before=listing(folder) if os.path.isdir(folder) else [], outb=outside(root, folder), plain=go(None))
        if s['op'] == 'temp2':
            tp = Temp_plt(folder=sub, **kw)          # relative to the working directory
        else:
            tp = Temp_plt(folder=os.path.join(root, sub), **kw)
        try:
            x['run'] = go(tp)
        except Exception as e:
            return type(e).__name__
        x.update(after=listing(folder), outa=outside(root, folder))
        x['sizes'] = [size_of(os.path.join(folder, p['n'])) for p in x['after'] if p['k'] == 'file' and p['n'].startswith('it')]
        return x
    x = unprivileged(f)
    e = tr.rec('temp_run', None, it=s['it'], size=[80, 40 * figsize[0]])
    if isinstance(x, str):
        e['exc'] = x
        return
    n0, recs, eps, rho = x['run']
    p0, recs1, eps1, rho1 = x['plain']
    if not np.all(np.isfinite(recs1)):
        tr.ev.pop()
        return
    e.update({k: x[k] for k in ('before', 'after', 'outb', 'outa', 'sizes')}, n0=n0, recs=tr.S(recs), recs1=tr.S(recs1),
             eps=tr.A(eps), eps1=tr.A(eps1), rho=tr.A(rho), rho1=tr.A(rho1))
