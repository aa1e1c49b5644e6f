#!/usr/bin/env python3
"""One check = one property: build, model-check the design, generate scenarios
with TLC, replay them into /repo, validate the recorded executions with TLC.

  run.py C01 [--tier quick|thorough] [--replay FILE] [--seed N] [--keep]

exit 0  held on everything explored
exit 1  VIOLATION property=<id> replay=<path>
exit 2  the machinery failed"""
import argparse, concurrent.futures as cf, glob, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
BUILD = os.path.join(VERIF, 'build')
TLA = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
REPO = os.environ.get('ANGLER_REPO', '/repo')
sys.path.insert(0, HERE)
from checks import CHECKS

LIBS = [os.path.join(VERIF, 'spec', d) for d in ('lib', 'trace', 'gen', 'models')]


class Machinery(Exception):
    pass


def build(num='num_f64'):
    """the Java classes evaluating CNum/RNum of a number domain"""
    src = sorted(glob.glob(os.path.join(VERIF, 'spec', num, '*.java')))
    out = os.path.join(BUILD, num)
    newest = max(os.path.getmtime(f) for f in src)
    done = os.path.join(out, 'CNum.class')
    if os.path.exists(done) and os.path.getmtime(done) >= newest:
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=BUILD)
    r = subprocess.run(['javac', '-nowarn', '-cp', TLA, '-d', tmp] + src, capture_output=True, text=True)
    if r.returncode:
        raise Machinery('javac: ' + r.stderr)
    os.makedirs(out, exist_ok=True)
    for f in sorted(os.listdir(tmp), reverse=True):     # CNum last
        os.replace(os.path.join(tmp, f), os.path.join(out, f))
    os.rmdir(tmp)
    return out


def tlc(module_dir, module, cfg, work, num='num_f64', args=(), env=None, timeout=600, xmx='2g', workers=1):
    cp = build(num) + ':' + TLA
    libs = os.pathsep.join([os.path.join(VERIF, 'spec', num)] + LIBS)
    md = tempfile.mkdtemp(dir=work)
    cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-Xss64m', '-Xmx' + xmx, '-cp', cp, '-DTLA-Library=' + libs,
           '-Djava.io.tmpdir=' + md, 'tlc2.TLC', '-noGenerateSpecTE', '-workers', str(workers), '-config', cfg, '-metadir', md] + list(args) + [module]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=module_dir, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b'').decode() if isinstance(x.stdout, bytes) else (x.stdout or '')
    finally:
        shutil.rmtree(md, ignore_errors=True)
    return r.returncode, r.stdout + r.stderr


def counts(out):
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    if m:
        return int(m[-1][0]), int(m[-1][1])
    m = re.findall(r'The number of states generated: (\d+)', out)
    return (int(m[-1]), int(m[-1])) if m else (0, 0)


def run_model(m, work, tier, seed):
    """design-level model checking; m = dict(module, cfg, num, args, expect)"""
    cfg = m['cfg'] if tier == 'quick' else m.get('cfg_thorough', m['cfg'])
    args = [a.format(seed=seed) for a in (m.get('args', []) if tier == 'quick' else m.get('args_thorough', m.get('args', [])))]
    rc, out = tlc(os.path.join(VERIF, 'spec', 'models'), m['module'], cfg, work, num=m.get('num', 'num_gf'),
                  args=args, workers=m.get('workers', 4), timeout=m.get('timeout', 600), xmx='6g')
    if rc != 0:
        raise Machinery('design model %s/%s: TLC exit %d\n%s' % (m['module'], cfg, rc, out[-3000:]))
    gen, distinct = counts(out)
    if gen == 0:
        raise Machinery('design model %s explored nothing\n%s' % (m['module'], out[-2000:]))
    return {'model': m['module'], 'config': cfg, 'states': distinct, 'transitions': gen}


def generate(g, work, tier, seed):
    """scenarios from a generator module"""
    n = g['n'] if tier == 'quick' else g.get('n_thorough', g['n'] * 8)
    if g.get('bfs'):
        args = ['-deadlock'] if False else []
    else:
        args = ['-simulate', 'num=%d' % n, '-depth', str(g.get('depth', 200)), '-seed', str(seed * 1000003 + 17)]
    rc, out = tlc(os.path.join(VERIF, 'spec', 'gen'), g['module'], g.get('cfg', 'Gen.cfg'), work, args=args,
                  num=g.get('num', 'num_gf'), env=g.get('env'), timeout=600)
    scn = []
    for line in out.splitlines():
        if line.startswith('"SCN '):
            scn.append(json.loads(json.loads(line)[4:]))
    if rc != 0 or not scn:
        raise Machinery('generator %s: TLC exit %d, %d scenarios\n%s' % (g['module'], rc, len(scn), out[-3000:]))
    gen, distinct = counts(out)
    if g.get('bfs'):
        scn.sort(key=lambda x: json.dumps(x, sort_keys=True))
    for i, s in enumerate(scn):
        s['gen'] = g['module']
        s['seed'] = (seed * 100003 + i * 101 + 53 * len(g.get('tag', ''))) % 2**30
        s['id'] = '%s%s-%s-%d' % (g['module'], g.get('tag', ''), seed, i)
    return scn, {'generator': g['module'], 'scenarios': len(scn), 'states': distinct, 'exhaustive': bool(g.get('bfs'))}


def py_env():
    e = dict(os.environ)
    e.update(PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', HOME=os.environ.get('HOME', '/root'),
             MKL_THREADING_LAYER='SEQUENTIAL', MKL_NUM_THREADS='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', LANG='C.UTF-8',
             ANGLER_REPO=REPO)
    return e


def shard(prop, module, scns, work, i, timeout):
    """drive one shard of scenarios and validate the traces: list of verdicts"""
    d = os.path.join(work, 'shard%d' % i)
    os.makedirs(d)
    sf, tf, od = os.path.join(d, 'scn.json'), os.path.join(d, 'trace.json'), os.path.join(d, 'out')
    os.makedirs(od)
    with open(sf, 'w') as f:
        json.dump(scns, f)
    env = py_env()
    env['SCRATCH'] = os.path.join(d, 'scratch')
    os.makedirs(env['SCRATCH'])
    t0 = time.time()
    traces, todo, deaths = [], list(scns), {}
    while todo:
        with open(sf, 'w') as f:
            json.dump(todo, f)
        try:
            r = subprocess.run(['/opt/venv/bin/python', '-W', 'ignore', os.path.join(HERE, 'rec.py'), prop, sf, tf],
                               env=env, cwd=env['SCRATCH'], capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Machinery('driver of %s timed out' % prop)
        got, begun = [], None
        if os.path.exists(tf):
            with open(tf) as f:
                for line in f:
                    try:
                        x = json.loads(line)
                    except ValueError:
                        break
                    if 'begin' in x:
                        begun = x['begin']
                    else:
                        got.append(x)
            os.unlink(tf)
        traces += got
        done = {x['id'] for x in got}
        todo = [s for s in todo if s['id'] not in done]
        if any(x.get('stop') for x in got):
            break               # the code under test hangs: enough seen
        if r.returncode == 0 or not todo:
            break
        if got and begun in done and r.returncode < 0:
            continue            # died between two scenarios
        if begun is None and r.returncode < 0 and deaths.get('', 0) < 3:
            deaths[''] = deaths.get('', 0) + 1
            continue
        if begun is None or begun in done:
            # the code under test could not even be loaded
            if re.search(r'(ImportError|SyntaxError|IndentationError|AttributeError|NameError|ModuleNotFoundError)', r.stderr):
                return [{'id': s['id'], 'bad': [[0, 'import', '*:' + r.stderr.strip().splitlines()[-1][:200]]], 'n': 0} for s in scns], (0, 0), 0, 0
            raise Machinery('driver of %s: exit %d\n%s' % (prop, r.returncode, r.stderr[-3000:]))
        # the interpreter died (the sparse solver is native code): once is bad luck
        deaths[begun] = deaths.get(begun, 0) + 1
        if deaths[begun] > 2:
            traces.append({'id': begun, 'arr': [], 'ev': [{'ev': 'crash', 'exc': '', 'what': 'the interpreter died, exit %d' % r.returncode, 'mut': [], 'others': {}}]})
            todo = [s for s in todo if s['id'] != begun]
    t1 = time.time()
    if os.environ.get('KEEP_TRACES'):
        with open(os.path.join(os.environ['KEEP_TRACES'], '%s_%d.json' % (prop, i)), 'w') as f:
            json.dump(traces, f)
    verdicts = {}
    todo = traces
    st = [0, 0]
    attempt = 0
    out = ''
    while todo:
        attempt += 1
        with open(tf, 'w') as f:
            json.dump(todo, f)
        for p in os.listdir(od):
            os.unlink(os.path.join(od, p))
        rc, out = tlc(os.path.join(VERIF, 'spec', 'trace'), module, 'Trace.cfg', d,
                      env={'TRACE_FILE': tf, 'OUT_DIR': od}, timeout=timeout, xmx='3g')
        g, dist = counts(out)
        st[0] += dist
        st[1] += g
        got = set()
        for p in glob.glob(os.path.join(od, '*.json')):
            with open(p) as f:
                v = json.load(f)
            verdicts[v['id']] = v
            got.add(v['id'])
        if rc == 0:
            break
        if attempt == 1:
            # evaluation failed somewhere: validate what is left one by one
            rest = [t for t in traces if t['id'] not in verdicts]
            if 'OutOfMemory' in out or 'StackOverflow' in out or rc == 124:
                raise Machinery('TLC on traces of %s: %s' % (prop, out[-1500:]))
            singles = rest
            for t in singles[:40]:
                with open(tf, 'w') as f:
                    json.dump([t], f)
                for p in os.listdir(od):
                    os.unlink(os.path.join(od, p))
                rc1, out1 = tlc(os.path.join(VERIF, 'spec', 'trace'), module, 'Trace.cfg', d,
                                env={'TRACE_FILE': tf, 'OUT_DIR': od}, timeout=timeout, xmx='3g')
                fs = glob.glob(os.path.join(od, '*.json'))
                if rc1 == 0 and fs:
                    with open(fs[0]) as f:
                        verdicts[t['id']] = json.load(f)
                else:
                    if 'OutOfMemory' in out1 or 'Parsing or semantic' in out1 or rc1 == 124:
                        raise Machinery('TLC on trace %s of %s: %s' % (t['id'], prop, out1[-2500:]))
                    msg = [x for x in out1.splitlines() if x.startswith('Error:') or 'ttempted' in x or 'Exception' in x]
                    verdicts[t['id']] = {'id': t['id'], 'n': 0,
                                         'bad': [[0, 'evaluation', '*:the specification cannot be evaluated on the recorded values: ' + ' / '.join(msg)[:600]]]}
                    if os.environ.get('TLC_DEBUG'):
                        print(out1[-6000:])
            break
    missing = [t['id'] for t in traces if t['id'] not in verdicts]
    if missing and not any(v['bad'] for v in verdicts.values()):
        raise Machinery('no verdict for %s\n%s' % (missing[:3], out[-2500:]))
    return list(verdicts.values()), tuple(st), sum(len(t['ev']) for t in traces), (t1 - t0, time.time() - t1)


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) match=/(.*)/ (.*)$', line.strip())
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--setup', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--no-models', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.setup:
        print(build(), build('num_gf'))
        return
    t0 = time.time()
    chk = CHECKS[a.prop]
    work = tempfile.mkdtemp(prefix='verif-%s-' % a.prop)
    try:
        rc = check(a, chk, work, t0)
    except Machinery as e:
        print('MACHINERY', e)
        rc = 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def check(a, chk, work, t0):
    build()
    build('num_gf')
    models, gens, scns = [], [], []
    jobs = int(os.environ.get('VERIF_JOBS', '8'))
    pool = cf.ThreadPoolExecutor(jobs)
    mfut = []
    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        scns = rep['scenarios']
    else:
        if not a.no_models:
            mfut = [pool.submit(run_model, m, work, a.tier, a.seed) for m in chk.get('models', [])
                    if m['cfg'] or a.tier == 'thorough']
        for g in [pool.submit(generate, g, work, a.tier, a.seed) for g in chk['gens']]:
            s, info = g.result()
            scns += s
            gens.append(info)
    t1 = time.time()
    # deal the scenarios out so that shards are alike
    k = max(1, min(jobs * chk.get('rounds', 1) * (4 if a.tier == 'thorough' else 1), (len(scns) + 1) // 2))
    shards = [scns[i::k] for i in range(k)]
    limit = 800 if a.tier == 'quick' else 6 * 3600
    res = [pool.submit(shard, a.prop, chk.get('module', 'Trace'), s, work, i, limit) for i, s in enumerate(shards)]
    verdicts, states, trans, events = [], 0, 0, 0
    td = tv = 0
    for r in res:
        v, st, n, tm = r.result()
        verdicts += v
        states += st[0]
        trans += st[1]
        events += n
        if tm:
            td, tv = max(td, tm[0]), max(tv, tm[1])
    models = [m.result() for m in mfut]
    by = {s['id']: s for s in scns}
    mine, machine, foreign = [], [], {}
    for v in verdicts:
        for step, ev, name in v['bad']:
            own, text = name.split(':', 1)
            if own == 'MACHINE':
                machine.append((v['id'], step, ev, text))
            elif own == '*' or a.prop in own.split(','):
                mine.append((v['id'], step, ev, text))
            else:
                foreign[name] = foreign.get(name, 0) + 1
                if a.v:
                    print('  (other) %s step %d (%s): %s' % (v['id'], step, ev, name))
    known = known_findings(a.prop)
    viol, seen = [], {}
    for x in mine:
        desc = '%s step %d (%s): %s' % x
        hit = [t for rx, t in known if rx.search(desc)]
        if hit:
            seen[hit[0]] = seen.get(hit[0], 0) + 1
        else:
            viol.append(x)
    for t in seen:
        print('KNOWN-FINDING: property=%s %s' % (a.prop, t))
    nev = len([v for v in verdicts if v['n'] > 1])
    samples = [{'scenario': by[v['id']], 'events': v['n'], 'failing': v['bad'][:3]} for v in verdicts[:3]]
    ev = {
        'property': a.prop, 'tier': a.tier, 'seed': a.seed, 'level': 'model_checking',
        'coverage': {
            'states': states + sum(m['states'] for m in models), 'transitions': trans + sum(m['transitions'] for m in models),
            'traces_validated_against_impl': len(verdicts), 'events_validated': events, 'nontrivial_traces': nev,
            'design_models': models, 'generators': gens, 'samples': samples,
            'rule': chk.get('rule', 'one trace per scenario chosen by TLC from the generator module; non-trivial: more than one event'),
            'clauses_of_other_properties': foreign},
        'assumptions': chk.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if not a.replay:
        with open(os.path.join(VERIF, 'evidence', a.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print('%s %s seed=%d: %d scenarios, %d traces, %d events; %d spec states; models %s; gen %.1fs drive %.1fs validate %.1fs total %.1fs' % (
        a.prop, a.tier, a.seed, len(scns), len(verdicts), events, states, [(m['model'], m['states']) for m in models],
        t1 - t0, td, tv, time.time() - t0))
    if foreign and a.v:
        print('other properties:', foreign)
    if viol:
        ids = sorted({x[0] for x in viol})
        os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
        path = os.path.join(VERIF, 'evidence', 'replay', '%s.json' % a.prop)
        with open(path, 'w') as f:
            json.dump({'property': a.prop, 'seed': a.seed, 'failing': viol[:50], 'scenarios': [by[i] for i in ids[:20]]}, f, indent=1)
        for x in viol[:12]:
            print('  %s step %d (%s): %s' % x)
        if len(viol) > 12:
            print('  ... %d more' % (len(viol) - 12))
        print('VIOLATION property=%s replay=%s' % (a.prop, path))
        return 1
    if machine:
        for x in machine[:10]:
            print('  MACHINE %s step %d (%s): %s' % x)
        raise Machinery('%d witness errors' % len(machine))
    return 0


if __name__ == '__main__':
    main()
