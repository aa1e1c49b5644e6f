"""Recording of real executions of angler for the trace specification.

Only the public interface of the code is used.  Arrays are stored once per trace
(bit-wise, after removing the sign of zeros); index 0 means "absent"."""
import contextlib, io, json, os, signal, sys, warnings
import numpy as np

COMPS = ('Ex', 'Ey', 'Ez', 'Hx', 'Hy', 'Hz')


def num(x):
    x = complex(x)
    re, im = x.real + 0.0, x.imag + 0.0
    return repr(re) if im == 0 else repr(re) + ' ' + repr(im)


def isint(x):
    try:
        return float(x) == int(x)
    except Exception:
        return False


class Trace:
    def __init__(self, id):
        self.id, self.arr, self.ix, self.ev = id, [], {}, []
        self.objs = {}          # name -> Simulation
        self.watched = []       # (name, array, bytes)
        self.things = {}        # name -> function giving further attributes as a list of strings
        self.touch = []         # names of those the present operation acts on

    # ---- encoding -------------------------------------------------------
    def A(self, a):
        if a is None:
            return 0
        a = np.asarray(a)
        if a.dtype == object:
            a = a.astype(complex)
        z = np.asarray(a, dtype=np.complex128)
        z = z + 0.0
        z = np.where(z.real == 0, 0, z.real) + 1j * np.where(z.imag == 0, 0, z.imag)
        sh = tuple(int(n) for n in z.shape)
        key = (sh, z.tobytes())
        if key not in self.ix:
            w = z if z.ndim == 2 else z.reshape((1, -1)) if z.ndim != 1 else z.reshape((1, -1))
            self.arr.append({'sh': list(sh), 'v': [[num(x) for x in row] for row in w]})
            self.ix[key] = len(self.arr)
        return self.ix[key]

    def S(self, a):
        """a sequence of numbers"""
        return [num(x) for x in np.asarray(a).reshape(-1)]

    def obs(self, sim):
        npml = [int(n) if isint(n) else -999 for n in sim.NPML]
        return {
            'eps': self.A(sim.eps_r), 'src': self.A(sim.src), 'om': num(sim.omega), 'dl': num(sim.dl),
            'L0': num(sim.L0), 'np': npml, 'pol': str(sim.pol), 'Nx': int(sim.Nx), 'Ny': int(sim.Ny),
            'xr': self.S(sim.xrange), 'yr': self.S(sim.yrange),
            'rho': self.A(getattr(sim, 'rho', None)),
            'lin': {c: self.A(sim.fields[c]) for c in COMPS}, 'nl': {c: self.A(sim.fields_nl[c]) for c in COMPS},
            'epsnl': self.A(sim.eps_nl), 'dnlde': self.A(sim.dnl_de), 'dnldeps': self.A(sim.dnl_deps),
            'nnl': len(sim.nonlinearity), 'nmodes': len(sim.modes),
            'win': num(sim.W_in) if hasattr(sim, 'W_in') else ''}

    # ---- arrays owned by the caller ---------------------------------------
    def own(self, name, a):
        if isinstance(a, np.ndarray):
            self.watched.append((name, a, a.tobytes(), a.shape, a.dtype))
        elif isinstance(a, list):
            self.watched.append((name, a, repr(a), None, None))
        return a

    def mutated(self):
        out = []
        for i, (name, a, b, sh, dt) in enumerate(self.watched):
            if sh is None:
                if repr(a) != b:
                    out.append(name)
                    self.watched[i] = (name, a, repr(a), None, None)
                continue
            if a.shape != sh or a.dtype != dt or a.tobytes() != b:
                out.append(name)
                self.watched[i] = (name, a, a.tobytes(), a.shape, a.dtype)
        return out

    # ---- events ---------------------------------------------------------
    def call(self, fn):
        """(result, name of the exception or '')"""
        try:
            return fn(), ''
        except Exception as e:
            return None, type(e).__name__

    def rec(self, ev, o=None, **kw):
        e = {'ev': ev, 'exc': '', **kw}
        if o is not None:
            e['o'] = o
            if o in self.objs:
                e['obs'] = self.obs(self.objs[o])
        e['mut'] = self.mutated()
        e['others'] = {p: self.obs(s) for p, s in self.objs.items() if p != o and p != kw.get('o2')}
        if self.things:
            e['aux'] = {n: [str(x) for x in f()] for n, f in self.things.items()}
            e['touch'] = list(self.touch)
        self.ev.append(e)
        return e

    def do(self, ev, o, fn, enc=None, **kw):
        r, exc = self.call(fn)
        e = self.rec(ev, o, **kw)
        e['exc'] = exc
        if enc is not None and exc == '':
            e.update(enc(r))
        return r

    def crash(self, what):
        self.ev.append({'ev': 'crash', 'exc': '', 'what': what, 'mut': [], 'others': {}})

    def json(self):
        return {'id': self.id, 'arr': self.arr, 'ev': self.ev}


class TimeUp(BaseException):
    pass


@contextlib.contextmanager
def quiet():
    so, se = sys.stdout, sys.stderr
    try:
        with open(os.devnull, 'w') as n:
            sys.stdout = sys.stderr = n
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                yield
    finally:
        sys.stdout, sys.stderr = so, se


def run_all(prop_run, scns, out, limit=150):
    def alarm(*a):
        raise TimeUp()
    # processor time, so that a busy machine makes no difference; the wall clock only ends a call that sleeps
    signal.signal(signal.SIGPROF, alarm)
    signal.signal(signal.SIGALRM, alarm)
    where = os.path.dirname(os.path.abspath(sys.modules['angler'].__file__)) + os.sep
    f = open(out, 'w')
    late = 0
    for s in scns:
        tr = Trace(s['id'])
        print(json.dumps({'begin': s['id']}), file=f, flush=True)
        signal.setitimer(signal.ITIMER_PROF, limit)
        signal.alarm(3 * limit)
        np.random.seed(int(s.get('seed', 1)) % (2**31))
        try:
            with quiet():
                prop_run(s, tr)
        except TimeUp as e:
            late += 1
            while e is not None and late < 1000:
                t = e.__traceback__
                while t is not None:
                    if t.tb_frame.f_code.co_filename.startswith(where):
                        tr.crash('no answer within %d s' % limit)
                        late += 1000
                        break
                    t = t.tb_next
                e = e.__context__
            late %= 1000
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            at = ' < '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-4:]))
            tr.crash('%s: %s at %s' % (type(e).__name__, str(e)[:200], at))
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.alarm(0)
        print(json.dumps(dict(tr.json(), stop=late >= 2)), file=f, flush=True)
        if late >= 2:
            break
    f.close()


def main():
    import importlib
    prop, scnfile, out = sys.argv[1:4]
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    mod = importlib.import_module('props.' + prop)
    with open(scnfile) as f:
        scns = json.load(f)
    run_all(mod.run, scns, out)


if __name__ == '__main__':
    sys.modules['rec'] = sys.modules['__main__']
    main()
