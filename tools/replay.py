"""Replays specification traces on the real blueprints and compares."""
import json, os, re, subprocess, sys, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import model

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BIN = os.path.join(ROOT, 'harness', 'target', 'debug', 'surge-harness')


def scenario(tr):
    return {'id': tr['id'], 'rules': tr['rules'], 'codes': tr['codes'], 'feeds': tr.get('feeds', ['FC1', 'FC2']), 'steps': [s for b in tr['batches'] for s in b['steps']]}


class Worker:
    def __init__(self):
        self.p = None
    def start(self):
        self.p = subprocess.Popen([BIN, 'run'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE if not os.environ.get('HARNESS_STDERR') else None, text=True)
        if self.p.stderr: threading.Thread(target=lambda f: [None for _ in f], args=(self.p.stderr,), daemon=True).start()
    def run(self, sc):
        """the recorded run, or None if the ledger process died"""
        if self.p is None or self.p.poll() is not None: self.start()
        try:
            self.p.stdin.write(json.dumps(sc) + '\n'); self.p.stdin.flush()
            line = self.p.stdout.readline()
        except BrokenPipeError: line = ''
        if not line:
            self.p.kill(); self.p.wait(); self.p = None
            return None
        return json.loads(line)
    def stop(self):
        if self.p: self.p.stdin.close(); self.p.wait()


def divergences(tr, rec):
    """disagreements between specification and implementation: those of derived views as they
    appear, and the first one of outcomes or state, after which the runs are no longer comparable.
    Each is {'batch','step','op','ops','kind','detail','paths'}"""
    E, M = {}, {}
    n = 0
    seen = set()
    for b, bt in enumerate(tr['batches']):
        for k in bt['gone']: E.pop(k, None); M.pop(k, None)
        E.update(bt['E']); M.update({k: int(v) for k, v in bt['M'].items()})
        ops = [s['op']['op'] for s in bt['steps']]
        got = None
        for k, st in enumerate(bt['steps']):
            got = rec['steps'][n]; n += 1
            ok, near, gate, out, ev = bt['res'][k]
            op = st['op']['op']
            where = {'batch': b, 'step': k, 'op': op, 'ops': ops}
            if op == 'gate':
                if got['auth'] is not None and got['auth'] != gate:
                    yield dict(where, kind='access', paths=['gate'], detail='%s.%s: %s' % (st['op']['comp'], st['op']['method'], 'must be refused but was let in' if gate else 'must be let in but was refused (%s)' % got.get('err', '')))
                    return
                continue
            if got['ok'] != ok:
                if not near: yield dict(where, kind='accept', paths=['accept'], detail='must be rejected but was accepted' if got['ok'] else 'must be accepted but was rejected: ' + str(got.get('err'))[:300])
                return
            if ok and out and 'out' in got and got['out'] is not None:
                o = got['out']
                o = [o] if isinstance(o, int) else [-1 if x is None else x for x in o] if isinstance(o, list) else None
                if o is not None and o != out:
                    if not near: yield dict(where, kind='result', paths=['out'], detail='returned %s, must be %s' % (o, out))
                    return
            if ok and not near:
                for d in announced(ev, got['ev'], E): yield dict(where, kind='event', paths=['event.' + d[0]], detail='announced %s %s, must be %s' % (d[0], d[2], d[1]))
        if got.get('obs', 0) is None:
            yield dict(where, kind='state', paths=['unreadable'], detail='the read-only calls fail in this state')
            return
        ds = model.diff((E, M), model.observed(got['obs']))
        if ds and any(r[1] for r in bt['res']): return
        hard = [d for d in ds if not derived(d[0])]
        soft = [d for d in ds if derived(d[0]) and d[0] not in seen]
        if soft:
            seen |= {d[0] for d in soft}
            yield dict(where, kind='view', paths=[d[0] for d in soft], detail='; '.join('%s must be %s but is %s' % d for d in soft[:6]))
        if hard:
            yield dict(where, kind='state', paths=[d[0] for d in hard], detail='; '.join('%s must be %s but is %s' % d for d in hard[:6]))
            return


def announced(want, got, E):
    out = model.event_diff(want, got)
    for e in got:
        # a request is announced as it is stored
        if e[0] != 'Request': continue
        p = 'accts.%s.reqs.%s' % (e[2][0], e[2][1])
        if p + '.body' in E and (E[p + '.body'], E[p + '.eff']) != (model.body_of(e[4]), e[4]['eff']): out.append(('Request', [E[p + '.body'], E[p + '.eff']], [model.body_of(e[4]), e[4]['eff']]))
    return out


def derived(path): return path.startswith('view.') or '.view' in path or path.startswith(('det.', 'own.'))


def judge(tr, rec): return next(divergences(tr, rec), None)


def load(files, pick=None):
    out = []
    for f in files:
        for k, line in enumerate(open(f)):
            if pick is None or k < pick: out.append(line)
    return out


if __name__ == '__main__':
    w = Worker()
    bad = 0
    lines = load(sys.argv[1:])
    kinds = {}
    for line in lines:
        tr = json.loads(line)
        rec = w.run(scenario(tr))
        j = judge(tr, rec) if rec else {'detail': 'ledger process died', 'batch': -1, 'step': -1, 'op': '', 'ops': []}
        for bt in tr['batches']:
            for s, r in zip(bt['steps'], bt['res']):
                key = s['op']['op']; c = kinds.setdefault(key, [0, 0, 0]); c[0 if r[0] else 1] += 1; c[2] += r[1]
        if j:
            bad += 1
            print(tr['id'], 'batch', j['batch'], 'step', j['step'], j['op'], j['ops'], j['detail'][:1200])
            if os.environ.get('SHOW'):
                print(json.dumps(tr['batches'][j['batch']]['steps'])[:3000])
    print(len(lines), 'traces,', bad, 'disagree')
    for k, v in sorted(kinds.items()): print('  %-20s accepted %d rejected %d near %d' % (k, *v))
