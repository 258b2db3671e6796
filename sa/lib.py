"""Shared machinery of the checks: building the compiler dump, obligations, evidence, reporting."""
import fcntl, glob, json, shutil, os, re, subprocess, sys, time, traceback, multiprocessing
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('HALO2_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
sys.path.insert(0, HERE)
from engine import *
from poly import Poly, TooLarge
import mir


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_driver():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, 'driver/main.rs')
    out = os.path.join(BUILD, 'mirdump')
    if os.path.exists(out) and os.path.getmtime(out) > os.path.getmtime(src):
        return out
    r = sh(['rustc', '+nightly', '--edition', '2021', '-O', src, '-o', out + '.tmp'])
    if r.returncode:
        print(r.stdout)
        sys.exit(2)
    os.rename(out + '.tmp', out)
    return out


def effects(name, features):
    """compile /repo's current tree and dump, for every function body of the halo2curves crate (generic, before
    monomorphisation), what it calls, which statics and thread-locals it touches, its casts and its local types"""
    return _build(name, features, True)


def dump(name, features):
    return _build(name, features, False)


def _build(name, features, eff):
    """compile /repo's current tree (as a dependency of the probe crate) and dump its monomorphic MIR"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = build_driver()
        env = dict(os.environ)
        sysroot = sh(['rustc', '+nightly', '--print', 'sysroot']).stdout.strip()
        rustc = sh(['rustup', 'which', '--toolchain', 'nightly', 'rustc']).stdout.strip()
        out = os.path.join(BUILD, name + '.json')
        if os.path.exists(out):
            os.remove(out)
        env.update(CARGO_TARGET_DIR=os.path.join(BUILD, 't'), CARGO_NET_OFFLINE='true', LD_LIBRARY_PATH=sysroot + '/lib',
                   RUSTFLAGS='-Zalways-encode-mir -Zmir-opt-level=0 --cap-lints allow',
                   RUSTC_WORKSPACE_WRAPPER=drv, MIRDUMP_OUT=out, MIRDUMP_STOP=os.path.join(VERIF, 'stop.txt'), RUSTC=rustc)
        env.pop('RUSTC_WRAPPER', None)
        if eff:
            env.pop('RUSTC_WORKSPACE_WRAPPER')
            t = os.path.join(BUILD, 't14')
            env.update(CARGO_TARGET_DIR=t, RUSTC_WRAPPER=drv, MIRDUMP_CRATE='halo2curves', MIRDUMP_MODE='effects')
            for fp in glob.glob(os.path.join(t, 'debug/.fingerprint/halo2curves-*')):
                if os.path.basename(fp).startswith('halo2curves-') and 'derive' not in fp:
                    shutil.rmtree(fp)
        env.pop('CARGO_BUILD_RUSTFLAGS', None)
        if 'asm' in features:
            # the generated table follows its generator, as in the project's own build
            tb, gen = os.path.join(REPO, 'src/bn256/fr/table.rs'), os.path.join(REPO, 'script/bn256.py')
            if os.path.exists(gen) and (not os.path.exists(tb) or not os.path.getsize(tb) or os.path.getmtime(gen) > os.path.getmtime(tb)):
                sh([sys.executable, 'script/bn256.py'], cwd=REPO)
        probe = os.path.join(VERIF, 'probe')
        os.utime(os.path.join(probe, 'src/lib.rs'))
        cmd = ['cargo', '+1.74.0', 'check', '--offline', '--features', ' '.join(features)]
        r = sh(cmd, cwd=probe, env=env)
        if r.returncode or not os.path.exists(out):
            print(r.stdout[-6000:])
            print('the probe crate does not compile against the current tree')
            sys.exit(2)
        if eff:
            d = json.load(open(out))
            os.remove(out)
            return d
        P = mir.Program(out)
        os.remove(out)
    P.fe_by = {}
    return P


def rel(path):
    return path.replace(REPO + '/', '') if path else path


class Obl:
    def __init__(self, oid, rule, status, detail='', where=None, sig=None):
        self.id = oid
        self.rule = rule
        self.status = status          # proved | violated | undecided
        self.detail = detail
        self.where = where
        self.sig = sig or detail


class Check:
    def __init__(self, prop, technique, rule, trusted=None, level='proof'):
        self.prop = prop
        self.t0 = time.time()
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.obls = []
        self.rule = rule
        self.technique = technique
        self.trusted = trusted or []
        self.level = level
        self.fns = set()
        self.steps = 0
        self.notes = []

    def add(self, o):
        self.obls.append(o)

    def load_known(self):
        known = []
        p = os.path.join(VERIF, 'known-findings.txt')
        if os.path.exists(p):
            for l in open(p):
                m = re.match(r'finding: property=(\S+) obligation=(\S+) sig=(".*?"|\S+) (.*)', l.strip())
                if m and m.group(1) == self.prop:
                    known.append((m.group(2), m.group(3).strip('"'), m.group(4)))
        return known

    def finish(self):
        known = self.load_known()
        viol, found = [], []
        for o in self.obls:
            if o.status != 'violated':
                continue
            hit = None
            for oid, sig, what in known:
                if oid == o.id and sig in o.sig:
                    hit = what
            (found if hit else viol).append((o, hit))
        ev = os.path.join(VERIF, 'evidence')
        os.makedirs(os.path.join(ev, 'replay'), exist_ok=True)
        for f in os.listdir(os.path.join(ev, 'replay')):
            if f.startswith(self.prop + '-'):
                os.remove(os.path.join(ev, 'replay', f))
        n = len(self.obls)
        done = sum(1 for o in self.obls if o.status == 'proved')
        und = [o for o in self.obls if o.status == 'undecided']
        if n == 0:
            print('no obligations generated')
            sys.exit(2)
        cov = {
            'rule': self.rule,
            'functions_analysed': len(self.fns),
            'functions': sorted(self.fns)[:400],
            'abstract_steps': self.steps,
            'undecided': [{'id': o.id, 'why': o.detail[:300]} for o in und][:200],
            'known_findings': [{'id': o.id, 'what': h} for o, h in found],
            'by_rule': {},
            'samples': [{'id': o.id, 'rule': o.rule, 'where': o.where} for o in self.obls[:40]],
        }
        for o in self.obls:
            d = cov['by_rule'].setdefault(o.rule, {'proved': 0, 'violated': 0, 'undecided': 0})
            d[o.status] += 1
        cov.update(obligations=n, discharged=done, checker_cmd=f'python3 /verif/checks/run.py {self.prop}',
                   trusted_base=self.trusted or ['this analyser', 'rustc'],
                   explanation='obligations are generated from the compiler IR of the current tree; each is decided by the stated rule')
        lines = []
        for o, h in found:
            lines.append(f'KNOWN-FINDING: property={self.prop} {h}')
        rep = []
        for i, (o, _) in enumerate(viol):
            f = os.path.join(ev, 'replay', f'{self.prop}-{i}.json')
            if i < 50:
                with open(f, 'w') as fh:
                    json.dump({'property': self.prop, 'obligation': o.id, 'rule': o.rule, 'construct': o.where,
                               'detail': o.detail, 'rerun': f'python3 /verif/checks/run.py {self.prop}'}, fh, indent=1)
                lines.append(f'VIOLATION property={self.prop} replay={f}')
                lines.append(f'  {o.id}: {o.rule}')
                lines.append(f'  at {o.where}')
                lines.append(f'  {o.detail[:600]}')
            rep.append({'id': o.id, 'where': o.where, 'detail': o.detail[:300]})
        lvl = self.level
        json.dump({'property': self.prop, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': lvl,
                   'coverage': cov, 'wall_s': round(time.time() - self.t0, 2), 'assumptions': self.trusted,
                   'violations': len(viol)}, open(os.path.join(ev, self.prop + '.json'), 'w'), indent=1)
        print('\n'.join(lines))
        for o in und[:20]:
            print(f'undecided: {o.id}: {o.detail[:200]}')
        print(f'{self.prop}: {n} obligations, {done} proved, {len(found)} known findings, {len(und)} undecided, '
              f'{len(viol)} violated; {len(self.fns)} functions; {time.time() - self.t0:.1f}s')
        sys.exit(1 if viol else 0)


MEM = 3300 << 20            # memory a worker may take


def _worker(f, items, conn):
    import resource
    with open('/proc/self/statm') as fh:
        vm, rss = (int(x) * resource.getpagesize() for x in fh.read().split()[:2])
    resource.setrlimit(resource.RLIMIT_AS, (vm + MEM, vm + MEM))
    while True:
        i = conn.recv()
        if i is None:
            break
        try:
            r = f(items[i])
        except MemoryError:
            os._exit(3)
        with open('/proc/self/statm') as fh:
            last = int(fh.read().split()[1]) * resource.getpagesize() > rss + (1200 << 20)      # starts afresh
        conn.send((i, r, last))
        if last:
            break
    conn.close()
    os._exit(0)


def pmap(f, items, lost=None, stop=None, grace=None, end=None):
    """run f over items in forked workers and return the results in order; f returns a picklable result.  An item whose
    worker dies (memory) gives lost(item).  Once stop(result) holds for a result, or at time end, only waits grace more
    seconds; items without a result are left out."""
    from multiprocessing.connection import wait
    items = list(items)
    procs = min(8, os.cpu_count() or 4, len(items))
    if procs <= 1:
        return [f(x) for x in items]
    ctx = multiprocessing.get_context('fork')
    sys.stdout.flush()
    res, todo, ws = {}, list(range(len(items)))[::-1], {}
    def spawn():
        a, b = ctx.Pipe()
        others = [c for c in ws] + [a]
        def go():
            for c in others:
                c.close()
            _worker(f, items, b)
        p = ctx.Process(target=go, daemon=True)
        p.start()
        b.close()
        ws[a] = [p, None]
    def feed(c):
        if not todo:
            try:
                c.send(None)
            except OSError:
                pass
            c.close()
            ws.pop(c)[0].join(5)
            return
        ws[c][1] = todo.pop()
        try:
            c.send(ws[c][1])
        except OSError:
            pass
    def fresh():
        while todo and len(ws) < procs:
            spawn()
            feed(list(ws)[-1])
    fresh()
    while ws:
        t = None if end is None else end - time.time()
        if t is not None and t <= 0:
            break
        for c in wait(list(ws), t):
            try:
                i, r, last = c.recv()
            except (EOFError, OSError):
                p, i = ws.pop(c)
                c.close()
                p.join(5)
                if i is not None:
                    if lost is None:
                        raise RuntimeError(f'worker died on {items[i]!r}'[:300])
                    res[i] = lost(items[i])
                continue
            res[i] = r
            ws[c][1] = None
            if stop is not None and stop(r):
                end = min(end or 1e18, time.time() + grace)
                stop = None
            if last:
                c.close()
                ws.pop(c)[0].join(5)
            else:
                feed(c)
        fresh()
    for c, (p, _) in ws.items():
        p.terminate()
    for c, (p, _) in ws.items():
        p.join(5)
    return [res[i] for i in sorted(res)]


def entry_of(P, fid):
    """the halo2curves construct a probe root calls (for reports)"""
    f = P.fns[fid]
    seen = {fid}
    work = [fid]
    while work:
        x = P.fns[work.pop(0)]
        if x.crate not in ('probe',) and x.raw is not None and '/repo/' in x.span[0]:
            return f'{x.name} ({rel(x.span[0])}:{x.span[1]})'
        for st, t, sp in x.raw or []:
            if t[0] == 'call' and t[1]['o'] == 'k':
                ft = P.types[t[1]['t']]
                if ft.k == 'fndef' and ft.d['fn'] is not None and ft.d['fn'] not in seen:
                    seen.add(ft.d['fn'])
                    work.append(ft.d['fn'])
    return f.name


def site_str(P, ev):
    """construct for an event: innermost frame inside the repository"""
    for n, s in reversed(ev[3]):
        if s:
            l = P.loc(s)
            if '/repo/' in l:
                return f'{n} ({rel(l)})'
    return ev[3][0][0] if ev[3] else '?'
