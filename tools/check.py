"""Decides one property: replays specification traces on the real blueprints and judges what the ledger did.
usage: check.py PROPERTY   (VERIF_SEED, VERIF_TIER from the environment)
       check.py --setup    builds the harness and generates the traces of this seed"""
import collections, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor
from queue import Queue, Empty
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import direct, replay, scopes

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JOBS = 8
PER_PROFILE = 120        # traces generated per profile and seed by a thorough check
STEPS = 25
QUICK = 190              # traces replayed by a quick check
MOST = 150               # of one profile
THOROUGH_S = 780         # time a thorough check may spend


def env():
    e = dict(os.environ)
    out = subprocess.run(['bash', '-c', '[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh; env -0'], stdout=subprocess.PIPE).stdout
    for kv in out.decode().split('\0'):
        if '=' in kv: k, v = kv.split('=', 1); e[k] = v
    e['CARGO_TARGET_DIR'] = os.path.join(ROOT, 'harness', 'target')
    return e


def build():
    t = time.time()
    r = subprocess.run(['cargo', 'build', '--offline'], cwd=os.path.join(ROOT, 'harness'), env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-6000:]); print('the harness does not build against this tree'); sys.exit(3)
    return time.time() - t


def spec_hash():
    h = hashlib.sha256()
    for f in sorted(glob.glob(ROOT + '/spec/**/*.qnt', recursive=True)) + [ROOT + '/tools/' + x for x in ('gen.py', 'itf.py', 'model.py')]:
        h.update(open(f, 'rb').read())
    return h.hexdigest()[:16]


def wanted(pid):
    """the traces of each profile a quick check of this property replays"""
    profs = scopes.PROFILES[pid]
    total = sum(w for _, w in profs)
    return [(p, min(MOST, max(4, QUICK * w // total))) for p, w in profs]


def needed(prof): return max([n for pid in scopes.PROFILES for p, n in wanted(pid) if p == prof] or [4])


def trace_dir(): return os.path.join(ROOT, 'traces', spec_hash())


def trace_file(prof, seed, n=None):
    """the trace file of a profile and seed, generated if it is not there"""
    n = n or needed(prof)
    d = trace_dir(); os.makedirs(d, exist_ok=True)
    f = os.path.join(d, '%s-%d.jsonl' % (prof, seed))
    with open(f + '.lock', 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(f):
            r = subprocess.run([sys.executable, ROOT + '/tools/gen.py', d, str(seed), str(n), str(STEPS), prof], env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0: print(r.stdout[-4000:]); print('the specification could not be simulated'); sys.exit(3)
    return f


def setup():
    seed = int(os.environ.get('VERIF_SEED', '1'))
    import gen
    for old in glob.glob(ROOT + '/traces/*'):
        if os.path.isfile(old): os.remove(old)
        elif os.path.basename(old) != spec_hash(): shutil.rmtree(old)
    errs = []
    def b():
        try: print('harness built in %.0f s' % build(), flush=True)
        except SystemExit as x: errs.append(x)
    th = threading.Thread(target=b); th.start(); th.join()
    t = time.time()
    with ThreadPoolExecutor(JOBS) as ex: n = len(list(ex.map(lambda p: trace_file(p, seed), gen.profiles())))
    print('traces of %d profiles in %.0f s' % (n, time.time() - t), flush=True)
    if errs: sys.exit(3)


class Finding:
    def __init__(self, trace, batch, what, detail, kind, paths, op):
        self.trace, self.batch, self.what, self.detail, self.kind, self.paths, self.op = trace, batch, what, detail, kind, paths, op


def examine(pid, tr, rec):
    """(findings in scope, findings elsewhere, counters) of one replayed trace"""
    mine, other = [], []
    c = collections.Counter()
    keys = set()
    def add(j, what):
        f = Finding(tr['id'], j['batch'], what, j['detail'], j['kind'], j['paths'], j['op'])
        (mine if scopes.covers(pid, tr['id'].rsplit('-', 2)[0], j) else other).append(f)
    for j in replay.divergences(tr, rec): add(j, 'conformance')
    n, prev = 0, None
    for b, bt in enumerate(tr['batches']):
        got = rec['steps'][n:n + len(bt['steps'])]; n += len(bt['steps'])
        c['steps'] += len(got)
        for st, r in zip(bt['steps'], bt['res']):
            if scopes.relevant(pid, st['op']['op']):
                c['relevant'] += 1
                if not r[1]:
                    key = (st['op']['op'], r[0], json.dumps({k: v for k, v in st['op'].items() if k not in ('px',)}, sort_keys=True), json.dumps(bt['M'], sort_keys=True)[:400])
                    keys.add(hash(key))
        o = got[-1].get('obs')
        if not o: continue
        c['states'] += 1
        live = any(g['ok'] or g.get('auth') is not None for g in got)
        for p, m in list(direct.state(o)) + list(direct.moves(prev, o, live)):
            f = Finding(tr['id'], b, 'direct', m, 'direct', [], bt['steps'][-1]['op']['op'])
            (mine if p == pid else other).append(f)
        prev = o
    return mine, other, c, keys


def run(pid):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2: tier = sys.argv[2]
    build()
    profs = scopes.PROFILES[pid]
    q = Queue(64)
    stop = threading.Event()
    stats = collections.Counter(); keys = set(); samples = []; mine = {}; other = {}
    lock = threading.Lock()
    def feed():
        try:
            if tier == 'quick':
                for p, want in wanted(pid):
                    for k, line in enumerate(open(trace_file(p, seed))):
                        if k >= want or stop.is_set(): break
                        q.put(line)
            else:
                s = seed
                while time.time() - t0 < THOROUGH_S and not stop.is_set():
                    with ThreadPoolExecutor(4) as ex: files = list(ex.map(lambda p: trace_file(p[0], s, None if s == seed else PER_PROFILE), profs))
                    for f in files:
                        for line in open(f):
                            if time.time() - t0 > THOROUGH_S or stop.is_set(): break
                            q.put(line)
                    if s != seed:
                        for f in files:
                            for x in (f, f + '.lock'):
                                if os.path.exists(x): os.remove(x)
                    s += 1000
        except SystemExit: stats['broken'] = 1
        finally:
            for _ in range(JOBS): q.put(None)
    def work():
        w = replay.Worker()
        try:
            while True:
                line = q.get()
                if line is None: break
                tr = json.loads(line)
                rec = w.run(replay.scenario(tr)) or w.run(replay.scenario(tr))
                if rec is None:
                    f = Finding(tr['id'], -1, 'crash', 'the ledger process dies while playing this trace', 'crash', [], '')
                    with lock: mine.setdefault(('crash', tr['id']), (f, tr)); stats['traces'] += 1
                    continue
                m, o, c, ks = examine(pid, tr, rec)
                with lock:
                    stats.update(c); stats['traces'] += 1; stats['violating'] += bool(m); keys.update(ks)
                    if len(samples) < 3 and tr['batches']:
                        b = max(range(len(tr['batches'])), key=lambda i: sum(scopes.relevant(pid, s['op']['op']) for s in tr['batches'][i]['steps']))
                        samples.append({'trace': tr['id'], 'batch': b, 'steps': [s['op'] for s in tr['batches'][b]['steps']][:4], 'expected': tr['batches'][b]['res'][:4]})
                    for f in m: mine.setdefault((f.what, f.op, tuple(sorted(f.paths))[:3], f.detail[:60] if f.what == 'direct' else ''), (f, tr))
                    for f in o: other.setdefault((f.what, f.op, tuple(sorted(f.paths))[:3]), (f, tr))
                    if len(mine) > 40: stop.set()
        except Exception:
            import traceback; traceback.print_exc(); stats['broken'] = 1; stop.set()
            while q.get() is not None: pass
        finally: w.stop()
    th = [threading.Thread(target=work) for _ in range(JOBS)]
    for t in th: t.start()
    feed()
    for t in th: t.join()
    if stats['broken']: print('the check could not complete'); sys.exit(3)
    known = [k for k in json.load(open(ROOT + '/known-findings.json'))['findings'] if k['property'] == pid]
    news = []
    for f, tr in mine.values():
        hit = next((k for k in known if re.search(k['match'], '%s %s %s %s' % (f.op, f.kind, ','.join(f.paths), f.detail))), None)
        if hit: hit['seen'] = True
        else: news.append((f, tr))
    for k in known: print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': {
            'evaluations': stats['relevant'], 'distinct_nontrivial': len(keys),
            'rule': 'traces of the Quint specification (profiles %s) simulated with the seed and replayed on the real blueprints; an evaluation is one operation of a kind this property speaks about, judged against the outcome and the state the specification prescribes; non-trivial and distinct: not within rounding distance of a threshold, and different in operation, outcome or effect from all others counted' % ', '.join(p for p, _ in profs),
            'samples': samples, 'traces_replayed': stats['traces'], 'operations_replayed': stats['steps'], 'real_states_compared': stats['states'],
            'findings_outside_this_property': [f.detail[:200] for f, _ in list(other.values())[:5]]},
          'assumptions': ['transaction costs, wallet signatures and ledger replay protection are taken as given', 'the specification is explored by seeded simulation, not exhaustively'],
          'wall_s': round(time.time() - t0, 1), 'violations': len(news)}
    os.makedirs(ROOT + '/evidence', exist_ok=True)
    json.dump(ev, open(ROOT + '/evidence/%s.json' % pid, 'w'), indent=1)
    for f, tr in other.values(): print('NOTE outside %s: %s batch %d %s: %s' % (pid, f.trace, f.batch, f.op, f.detail[:200]))
    if news:
        os.makedirs(ROOT + '/replay', exist_ok=True)
        for k, (f, tr) in enumerate(news[:5]):
            path = ROOT + '/replay/%s-%d.jsonl' % (pid, k)
            with open(path, 'w') as o: o.write(json.dumps(tr) + '\n')
            print('%s batch %d (%s): %s' % (f.trace, f.batch, f.op, f.detail[:600]))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        print('%d of %d traces violate %s' % (stats['violating'], stats['traces'], pid))
        sys.exit(1)
    print('%s held on %d traces (%d operations, %d relevant, %d states) in %.0f s' % (pid, stats['traces'], stats['steps'], stats['relevant'], stats['states'], time.time() - t0))


if __name__ == '__main__':
    if sys.argv[1] == '--setup': setup()
    else: run(sys.argv[1])
