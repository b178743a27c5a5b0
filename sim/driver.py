"""Driver: stages the code under test, spreads seeded runs over worker processes,
minimises and confirms violations, writes evidence.

  check.py PROP           quick or thorough by VERIF_TIER; seed by VERIF_SEED
"""
import collections
import hashlib
import json
import os
import select
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import core
import meta
import worlds

EPOCH = 25
STALL = 100          # seconds without a sign of life from a worker


class Broken(Exception):
    """The check itself failed: no verdict."""


class W(object):
    def __init__(self, cmd):
        self.p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.PIPE, cwd=VERIF)
        self.fd = self.p.stdout.fileno()
        self.buf = b''
        self.at = None
        self.epoch = None
        self.last = time.time()
        self.err = open(os.devnull)
        os.set_blocking(self.p.stderr.fileno(), False)

    def give(self, e):
        self.epoch, self.at = e, None
        self.last = time.time()
        self.p.stdin.write(b'%d\n' % e)
        self.p.stdin.flush()

    def kill(self):
        try:
            self.p.kill()
            self.p.wait()
        except Exception:
            pass


class Check(object):
    def __init__(self, prop, tier, seed, runs=None, workers=None, root=None):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.m = meta.PROPS[prop]
        self.base = seed * 10000000
        self.nruns = runs or self.m[tier]
        self.cap = {'quick': 150, 'thorough': 840}[tier]
        self.nw = workers or min(8, os.cpu_count() or 1)
        self.results = {}
        self.dir = tempfile.mkdtemp(prefix='cmdis-sim-')
        self.root = root
        self.capped = False

    # ------------------------------------------------------------- running

    def stage(self):
        if self.root is None:
            self.root = core.stage(self.dir)
            # the console module is Python 2 source: convert it in the scratch copy
            # exactly as setup.py's build does
            if worlds.WORLD_OF[self.prop] == 'consworld':
                core.convert_main(self.root)

    def worker(self):
        env = dict(os.environ)
        env.setdefault('PYTHONHASHSEED', '0')
        env['PYTHONDONTWRITEBYTECODE'] = '1'
        return W([sys.executable, os.path.join(HERE, 'worker.py'), self.prop, self.root,
                  str(self.base), self.tier, str(EPOCH)])

    def explore(self):
        t0 = time.time()
        epochs = collections.deque(range((self.nruns + EPOCH - 1) // EPOCH))
        ws = [self.worker() for _ in range(min(self.nw, len(epochs)))]
        best = None                        # lowest violating epoch
        try:
            for w in ws:
                w.give(epochs.popleft())
            while True:
                busy = [w for w in ws if w.epoch is not None]
                if best is not None:
                    for w in busy:
                        if w.epoch > best:
                            w.kill()
                            w.epoch = None
                    busy = [w for w in ws if w.epoch is not None]
                if not busy:
                    break
                rd, _, _ = select.select([w.fd for w in busy], [], [], 1.0)
                now = time.time()
                for w in busy:
                    if w.fd not in rd:
                        if now - w.last > STALL:
                            w.kill()
                            if w.at is None:
                                raise Broken('worker stalled while importing')
                            self.results[w.epoch] = {'viol': {
                                'n': w.at, 'k': w.at % EPOCH, 'kind': 'hang',
                                'detail': 'a run used more than %d s' % STALL,
                                'digest': None}, 'runs': w.at % EPOCH}
                            best = w.epoch if best is None else min(best, w.epoch)
                            w.epoch = None
                        continue
                    data = os.read(w.fd, 1 << 20)
                    w.last = now
                    if not data:
                        w.p.wait()
                        err = w.p.stderr.read() or b''
                        raise Broken('worker died (%s) at run %s\n%s' % (
                            w.p.returncode, w.at, err.decode(errors='replace')[-3000:]))
                    w.buf += data
                    while b'\n' in w.buf:
                        line, w.buf = w.buf.split(b'\n', 1)
                        r = json.loads(line)
                        if 'at' in r:
                            w.at = r['at']
                            continue
                        if 'error' in r:
                            raise Broken('harness error in epoch %d:\n%s' % (
                                r['epoch'], r['error']))
                        self.results[r['epoch']] = r
                        if r['viol'] is not None:
                            best = r['epoch'] if best is None else min(best, r['epoch'])
                        w.epoch = None
                        if time.time() - t0 > self.cap and epochs:
                            epochs.clear()
                            self.capped = True
                        if epochs and best is None:
                            w.give(epochs.popleft())
        finally:
            for w in ws:
                w.kill()
        self.explore_s = time.time() - t0
        return best

    # ------------------------------------------------------------ reporting

    def minimise(self, e):
        v = self.results[e]['viol']
        world = worlds.world(self.prop)
        scs = [world.generate(self.prop, self.base + e * EPOCH + k, self.tier)
               for k in range(v['k'] + 1)]
        job = os.path.join(self.dir, 'job.json')
        out = os.path.join(self.dir, 'min.json')
        with open(job, 'w') as fh:
            json.dump({'prop': self.prop, 'root': self.root, 'scenarios': scs,
                       'kind': v['kind'], 'limit': 60}, fh)
        res = None
        if v['kind'] != 'hang' or v['digest'] is not None:
            try:
                subprocess.run([sys.executable, os.path.join(HERE, 'minimise.py'), job, out],
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                               timeout=150)
                with open(out) as fh:
                    res = json.load(fh)
            except Exception:
                res = None
        if res is None or not res.get('reproduced'):
            res = {'property': self.prop, 'reproduced': False, 'scenarios': scs,
                   'kind': v['kind'], 'detail': v['detail'], 'digest': v['digest'],
                   'trace': []}
        res['first_seen'] = {'seed': self.base + v['n'], 'verif_seed': self.seed,
                             'tier': self.tier, 'kind': v['kind'], 'detail': v['detail']}
        d = os.path.join(VERIF, 'evidence', 'replays')
        os.makedirs(d, exist_ok=True)
        name = hashlib.sha1(json.dumps([res['scenarios'], res['kind']]).encode()).hexdigest()
        path = os.path.join(d, '%s-%s.json' % (self.prop, name[:12]))
        with open(path, 'w') as fh:
            json.dump(res, fh, indent=1)
        # replay in a fresh process
        ok = False
        try:
            p = subprocess.run([sys.executable, os.path.join(VERIF, 'replay.py'), path],
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200)
            ok = p.returncode == 1
        except subprocess.TimeoutExpired:
            ok = v['kind'] == 'hang'
        return path, res, ok

    def evidence(self, viol, known, wall):
        stats, sigs, kn = {}, set(), {}
        runs = 0
        dig = hashlib.blake2b(digest_size=16)
        samples = []
        for e in sorted(self.results):
            r = self.results[e]
            runs += r.get('runs', 0)
            for k, v in r.get('stats', {}).items():
                stats[k] = stats.get(k, 0) + v
            sigs.update(r.get('sigs', ()))
            for k, v in r.get('known', {}).items():
                kn[k] = kn.get(k, 0) + v
            dig.update(r.get('digest', '').encode())
            if r.get('sample') and len(samples) < 2:
                samples.append(r['sample'])
        faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith('fault.')}
        other = {k: v for k, v in sorted(stats.items()) if not k.startswith('fault.')}
        m = self.m
        h = max(self.explore_s, 1e-6) / 3600
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed,
            'level': 'exploration',
            'coverage': {
                'evaluations': runs,
                'distinct_nontrivial': len(sigs),
                'rule': m['rule'],
                'samples': samples,
                'simulated_runs': runs,
                'seeds': [self.base, self.base + runs - 1],
                'seeds_per_hour': int(runs / h),
                'workers': self.nw,
                'exploration_wall_s': round(self.explore_s, 2),
                'stopped_by_time_cap': self.capped,
                'simulated_time': {
                    'unit': 'executed statements of the code under test (it has no clock)',
                    'statements': stats.get('statements', 0)},
                'faults_injected': faults,
                'faults_injected_total': sum(faults.values()),
                'counters': other,
                'known_finding_hits': kn,
                'real_components': m['real'], 'stub_components': m['stub'],
                'event_log_digest': dig.hexdigest(),
            },
            'assumptions': m.get('assumptions', []) + meta.COMMON_ASSUMPTIONS,
            'wall_s': round(wall, 2),
            'violations': 1 if viol else 0,
        }
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, self.prop + '.json')
        with open(p + '.tmp', 'w') as fh:
            json.dump(ev, fh, indent=1)
        os.replace(p + '.tmp', p)
        return ev, kn

    def run(self):
        t0 = time.time()
        try:
            self.stage()
            best = self.explore()
            path = None
            if best is not None:
                path, res, ok = self.minimise(best)
            ev, kn = self.evidence(best is not None, None, time.time() - t0)
            c = ev['coverage']
            print('%s %s seed=%d: %d runs, %d distinct, %d faults, %.1fs' % (
                self.prop, self.tier, self.seed, c['evaluations'], c['distinct_nontrivial'],
                c['faults_injected_total'], ev['wall_s']))
            self.floors(c, best)
            for f in known_findings():
                if self.prop in f['properties'] and kn.get(f['id']):
                    print('KNOWN-FINDING: property=%s %s' % (self.prop, f['what']))
            if best is not None:
                print('%s: %s' % (res['kind'], res['detail']))
                print('seed %d; minimised replay %s' % (
                    res['first_seen']['seed'],
                    'reproduces exactly' if ok else 'did NOT reproduce in a fresh process'))
                print('VIOLATION property=%s replay=%s' % (self.prop, path))
                return 1
            return 0
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)

    def floors(self, c, best):
        """A run that did not really exercise the property is not a verdict."""
        if best is None and not self.capped:
            for k, n in self.m.get('floors', {}).items():
                got = c['counters'].get(k, 0)
                if k == 'faults':
                    got = c['faults_injected_total']
                if got * 1000 < n * c['evaluations']:
                    raise Broken('too little exercised: %s=%d in %d runs' % (
                        k, got, c['evaluations']))


def known_findings():
    with open(os.path.join(VERIF, 'known_findings.json')) as fh:
        return json.load(fh)['findings']


def main(argv):
    prop = argv[1]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--thorough' in argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    runs = workers = None
    for a in argv[2:]:
        if a.startswith('--runs='):
            runs = int(a[7:])
        if a.startswith('--workers='):
            workers = int(a[10:])
    if prop not in meta.PROPS:
        print('unknown property', prop)
        return 2
    try:
        return Check(prop, tier, seed, runs, workers).run()
    except Broken as e:
        print('CHECK-ERROR property=%s %s' % (prop, e))
        return 2
