"""From specification traces to harness scenarios and expected observations."""
import json, re

RULES = {}

def snake(tag):
    return re.sub(r'(?<!^)([A-Z])', r'_\1', tag).lower()

OPNAME = {'MintRefAlloc': 'mint_ref', 'Gate': 'gate'}
# amounts are sent as strings; everything else numeric as numbers
NUM = {'acct', 'index', 'indexes', 'level', 'delay', 'expiry', 'status', 'ref', 'count', 'alloc_index', 'max', 'id', 'key', 'seed',
       'positions_max', 'collaterals_max', 'active_requests_max', 'price_age_max', 'update_period_seconds'}
OPTIONAL = {'UpdateRef': {'fee_referral', 'fee_rebate', 'max'}, 'FdCfg': {'max_lock', 'mult', 'cont'}, 'Tpsl': {'tp', 'sl'}}


def plain(v, key=''):
    if isinstance(v, bool) or isinstance(v, str): return v
    if isinstance(v, int): return v if key in NUM else str(v)
    if isinstance(v, dict): return {k: plain(x, k) for k, x in v.items()}
    if isinstance(v, (list, tuple)): return [plain(x, key) for x in v]
    raise TypeError(v)


def px_json(p):
    if not p['on']: return None
    return {'prices': [[f, str(q), t] for f, q, t in p['prices']], 'key': p['key'], 'seed': p['seed'], 'tamper': p['tamper']}


def oath_json(o):
    if o['mode'] == 'none': return None
    return {'mode': o['mode'], 'amount': str(o['amount']), 'part': str(o['part']), 'res': o['res'] or 'BASE'}


def code_list(codes):
    return [[c[0], [[r, str(a)] for r, a in c[1]], c[2]] for c in codes]


def op_json(op):
    tag, v = op['tag'], op['value']
    o = {'op': OPNAME.get(tag, snake(tag))}
    if not isinstance(v, dict): return o
    for k, x in v.items():
        if k == 'px': o[k] = px_json(x)
        elif k == 'oath': o[k] = oath_json(x)
        elif k in ('act', 'can'): o[k] = [i['value'] if i['tag'] == 'IdxAbs' else {'rel': i['value']} for i in x]
        elif k in OPTIONAL.get(tag, ()): o[k] = plain(x[0], k) if x else None
        elif k == 'code' and tag == 'CreateAccount': o[k] = x or None
        elif k == 'codes' and tag == 'CreateCodes': o[k] = code_list(x)
        elif k == 'codes': o[k] = list(x)
        elif k == 'using': o['use'] = x
        elif k == 'alloc' and tag == 'CodesFromAlloc': o[k] = x
        elif k in ('plim', 'slip'): o[k] = [x[0], str(x[1])]
        else: o[k] = plain(x, k)
    return o


def step_json(st):
    sig = list(st['signers'])
    for k, x in st['op']['value'].items() if isinstance(st['op']['value'], dict) else ():
        if k in ('acct', 'index', 'alloc_index') and x < 0: raise SystemExit('specification bug: negative %s in %s' % (k, st['op']))
    o = {'t': st['t'], 'signers': [k for k in sig if k != 'AUTH'], 'op': op_json(st['op'])}
    if 'AUTH' in sig: o['auth'] = True
    return o


def rule_str(r):
    if not isinstance(r, dict): r = dict(r)
    n = list(r['n'])
    return {'allow': 'allow', 'deny': 'deny', 'node': n[0] if n else '?'}.get(r['k'], 'any(%s)' % ','.join(n))


PAIRS = ['P1', 'P2', 'P3', 'P4']


def expect(s, seen):
    """(exact, money): flat expectations about what can be observed in state s"""
    E, M = {}, {}
    for a, x in enumerate(s['accts']):
        p = 'accts.%d.' % a
        M[p + 'vb'] = x['vb']
        E[p + 'posk'] = sorted(x['pos'])
        for k, q in x['pos'].items():
            M[p + 'pos.%s.amt' % k], M[p + 'pos.%s.cost' % k], M[p + 'pos.%s.fidx' % k] = q['amt'], q['cost'], q['fidx']
        E[p + 'collk'] = sorted(x['coll'])
        for r, v in x['coll'].items(): M[p + 'coll.' + r] = v
        E[p + 'rlen'] = len(x['reqs'])
        for n, r in enumerate(x['reqs']):
            q = p + 'reqs.%d' % n
            if r['kind'] == 'order':
                body = ['order', r['pair'], str(r['amt']), r['reduce'], [r['plim'][0], str(r['plim'][1])], [r['slip'][0], str(r['slip'][1])], list(r['act']), list(r['can'])]
            else:
                body = ['remove', [[c[0], str(c[1])] for c in r['claims']], r['target']]
            E[q + '.body'] = body
            E[q + '.eff'] = [[r['target']], [c[0] for c in r['claims']]] if r['kind'] == 'remove' else [[], []]
            E[q + '.sub'], E[q + '.exp'], E[q + '.status'] = r['sub'], r['exp'], r['status']
        E[p + 'active'] = sorted(x['active'])
        E[p + 'vrs'] = x['vrs']
        E[p + 'ref'] = None if x['ref'] < 0 else x['ref']
        E[p + 'roles'] = [rule_str(r) for r in x['roles']]
        w = seen['accts'][a]
        d = 'det.%d.' % a
        k = len(x['reqs']) % 5
        E['own.%d.rlen' % a], E['own.%d.fwd.%d' % (a, k)], E['own.%d.present' % a] = len(x['reqs']), list(w['fwd'][k]), list(w['present'])
        if not w['readable']: E[d[:-1]] = None
        else:
            for v in w['pos']:
                M[p + 'view.%s.funding' % v['pair']], M[p + 'view.%s.mi' % v['pair']], M[p + 'view.%s.mm' % v['pair']] = v['funding'], v['mi'], v['mm']
                M[d + 'pos.%s.amt' % v['pair']], M[d + 'pos.%s.cost' % v['pair']] = x['pos'][v['pair']]['amt'], x['pos'][v['pair']]['cost']
            M[d + 'vb'], E[d + 'vrs'], E[d + 'rlen'] = x['vb'], x['vrs'], len(x['reqs'])
            E[d + 'collk'] = sorted(c['res'] for c in w['coll'])
            for c in w['coll']:
                M[d + 'coll.%s.amount' % c['res']], M[d + 'coll.%s.margin' % c['res']] = c['amount'], c['margin']
                E[d + 'coll.%s' % c['res']] = [str(c['discount']), c['feed']]
            E[d + 'active'] = list(w['active'])
            for k in (0, 1 + len(x['reqs']) % 8): E[d + 'pages.%d' % k] = list(w['pages'][k])
            if x['ref'] >= 0:
                f = s['refs'][x['ref']]
                E[d + 'ref'] = [x['ref'], str(f['fee_referral']), str(f['fee_rebate']), f['n'], f['max']]
                M[d + 'ref.balance'], M[d + 'ref.total'] = f['balance'], f['total']
            else: E[d + 'ref'] = None
    E['accts'] = len(s['accts'])
    for k in ('tokens', 'vb', 'unreal', 'skew', 'pnl'): M['pool.' + k] = s['pool'][k]
    for k in PAIRS:
        q = s['pool']['pairs'].get(k)
        for f in ('oiL', 'oiS', 'cost', 'skew', 'pnl', 'f2', 'fl', 'fs', 'price'):
            M['pair.%s.%s' % (k, f)] = q[f] if q else (10**18 if f == 'price' else 0)
        if q: E['pair.%s.last' % k] = q['last']
    M['prot'], M['treas'] = s['prot'], s['treas']
    M['fd.vb'], M['fd.max_lock'], M['fd.mult'], E['fd.cont'] = s['fd']['vb'], s['fd']['max_lock'], s['fd']['mult'], s['fd']['cont']
    if s['fd']['xrd_known']: M['fd.xrd'] = s['fd']['xrd']
    for k, v in s['cfg'].items(): E['cfg.' + k] = str(v)
    E['plist'] = list(s['plist'])
    for p, c in s['pcfg'].items():
        for k, v in c.items(): E['pcfg.%s.%s' % (p, k)] = str(v)
    E['ccfgk'] = sorted(s['ccfg'])
    for r, c in s['ccfg'].items():
        for k in ('pair_id', 'price_age_max', 'discount', 'margin'): E['ccfg.%s.%s' % (r, k)] = str(c[k])
    E['refs'] = len(s['refs'])
    for n, r in enumerate(s['refs']):
        p = 'refs.%d.' % n
        M[p + 'balance'], M[p + 'total'] = r['balance'], r['total']
        E[p + 'rates'] = [str(r['fee_referral']), str(r['fee_rebate'])]
        E[p + 'n'], E[p + 'max'] = r['n'], r['max']
        E[p + 'allocs'] = [[[[c[0], str(c[1])] for c in al['claims']], al['n'], al['max']] for al in r['allocs']]
    for k, c in s['codes'].items():
        E['codes.' + k] = [c['ref'], [[x[0], str(x[1])] for x in c['claims']], c['n'], c['max']]
    for r, v in s['refvault'].items(): M['refvault.' + r] = v
    for r, l in s['perms'].items(): E['perms.' + rule_str(r)] = [sorted(x) for x in l]
    E['wrapper'] = [[w['res'], w['on']] for w in s['wrapper']]
    for w in s['wrapper']: M['wrapper.' + w['res']] = w['amount']
    for r, v in s['wallet'].items(): M['wallet.' + r] = v
    for r, v in s['target'].items(): M['target.' + r] = v
    for r, v in s['supply'].items(): M['supply.' + r] = v
    M['supply.OATH'] = 0
    M['supply.FLASH'] = 0
    M['exauth'] = s['exauth']
    for f, (q, t) in s['prices'].items(): E['oracle.' + f] = [str(q), t]
    for k in ('tokens', 'vb', 'unreal', 'pnl'): M['det.pool.' + k] = s['pool'][k]
    E['det.pool.cap'], M['det.pool.supply'] = str(s['cfg']['skew_ratio_cap']), s['supply']['LP']
    M['det.prot'], M['det.treas'] = s['prot'], s['treas']
    E['det.pairs'] = 'as stored'
    for k, l in enumerate(seen['pairs']): E['det.pairpage.%d' % k], E['det.cfgpage.%d' % k] = list(l), list(l)
    E['own.env'] = list(seen['env'])
    for n, f in enumerate(s['refs']): E['own.alloc.%d' % n] = [[[[c[0], str(c[1])] for c in al['claims']], al['n'], al['max']] for al in f['allocs']]
    for k, l in enumerate(seen['pairs']): E['own.cfgpage.%d' % k] = list(l)
    E['own.known'] = [p for p in PAIRS + ['PX'] if p in s['pcfg']]
    E['own.plen'], E['own.blank'] = len(s['plist']), True
    for k, l in enumerate(seen['inputs']): E['det.inputpage.%d' % k] = list(l)
    M['view.value'], M['view.ratio'], M['view.lp_price'] = seen['value'], seen['ratio'], seen['lp_price']
    return E, M


def body_of(r):
    if r['kind'] == 'order': return ['order', r['pair'], r['amt'], r['reduce'], r['plim'], r['slip'], r['act'], r['can']]
    return ['remove', r['claims'], r['target']] if r['kind'] == 'remove' else [r['kind']]


def event_diff(want, got):
    """announcements, in any order: [(what, expected, announced)]"""
    key = lambda e: (e[0], e[1], [int(x) for x in e[2]], [int(x) for x in e[3]])
    # (linked requests are announced in no particular order)
    norm = lambda e: [e[0], e[1], e[2][:1] + sorted(e[2][1:], key=int), e[3]] if e[0] in ('Activated', 'Cancelled') else e
    want, got = sorted(map(norm, want), key=key), sorted(map(norm, got), key=key)
    out, used = [], [False] * len(got)
    for w in want:
        same = [k for k, g in enumerate(got) if not used[k] and g[:3] == w[:3]]
        good = [k for k in same if len(w[3]) == len(got[k][3]) and all(close(int(x), int(y)) for x, y in zip(w[3], got[k][3]))]
        if good: used[good[0]] = True
        else: out.append((w[0], w[1:4], [got[k][1:4] for k in same] or None))
    out += [(g[0], None, g[1:4]) for k, g in enumerate(got) if not used[k] and not any(g[0] == d[0] and d[2] for d in out)]
    return out


def close(v, w): return abs(v - w) <= 10**9 + max(abs(v), abs(w)) // 10**15


def observed(o):
    """the same flat form of what the real ledger reports"""
    E, M = {}, {}
    det = o.get('details')
    for a, x in enumerate(o['accts']):
        p = 'accts.%d.' % a
        M[p + 'vb'] = int(x['vb'])
        E[p + 'posk'] = sorted(x['pos'])
        for k, q in x['pos'].items():
            M[p + 'pos.%s.amt' % k], M[p + 'pos.%s.cost' % k], M[p + 'pos.%s.fidx' % k] = map(int, q)
        E[p + 'collk'] = sorted(x['coll'])
        for r, v in x['coll'].items(): M[p + 'coll.' + r] = int(v)
        E[p + 'rlen'] = x['rlen']
        for n, r in enumerate(x['reqs']):
            q = p + 'reqs.%d' % n
            E[q + '.body'] = body_of(r)
            E[q + '.eff'] = r['eff']
            E[q + '.sub'], E[q + '.exp'], E[q + '.status'] = r['sub'], int(r['exp']), r['status']
        E[p + 'active'] = x['active']
        if x['alen'] != len(x['active']): E[p + 'active'] = ['count', x['alen'], x['active']]
        if len(x['reqs']) != x['rlen']: E[p + 'rlen'] = ['count', x['rlen'], len(x['reqs'])]
        E[p + 'vrs'], E[p + 'ref'], E[p + 'roles'] = x['vrs'], x['ref'], x['roles']
    E['accts'] = len(o['accts'])
    if det:
        for a, x in enumerate(det['accts']):
            p = 'accts.%d.' % a
            d = 'det.%d.' % a
            if x is None: E[d[:-1]] = None; continue
            for k, q in x['pos'].items():
                M[p + 'view.%s.funding' % k], M[p + 'view.%s.mi' % k], M[p + 'view.%s.mm' % k] = map(int, q[2:])
                M[d + 'pos.%s.amt' % k], M[d + 'pos.%s.cost' % k] = map(int, q[:2])
            M[d + 'vb'], E[d + 'vrs'], E[d + 'rlen'] = int(x['vb']), x['vrs'], x['rlen']
            E[d + 'collk'] = sorted(x['coll'])
            for r, c in x['coll'].items():
                M[d + 'coll.%s.amount' % r], M[d + 'coll.%s.margin' % r] = int(c[0]), int(c[2])
                E[d + 'coll.%s' % r] = [c[1], c[3]]
            # every request listed must read as it is stored
            stored = [{k: v for k, v in r.items() if k != 'eff'} for r in o['accts'][a]['reqs']]
            def same(l, stored=stored):
                out = []
                for n, r in l: out.append(n if n < len(stored) and r == stored[n] else [n, 'differs from what is stored', r])
                return out
            E[d + 'active'] = same(x['active'])
            for k, l in zip((0, 1 + x['rlen'] % 8), x['pages']): E[d + 'pages.%d' % k] = same(l)
            f = x['ref']
            E[d + 'ref'] = f and f[:5]
            if f: M[d + 'ref.balance'], M[d + 'ref.total'] = int(f[5]), int(f[6])
        for k in ('tokens', 'vb', 'unreal', 'pnl'): M['det.pool.' + k] = int(det['pool'][k])
        E['det.pool.cap'], M['det.pool.supply'] = det['pool']['cap'], int(det['pool']['supply'])
        M['det.prot'], M['det.treas'] = map(int, o['views'])
        want = [[c['pair_id'], o['pool']['pairs'][c['pair_id']], c] for c in o['pcfg']]
        E['det.pairs'] = 'as stored' if det['pairs'] == want else det['pairs']
        for k, l in enumerate(det['pages']): E['det.pairpage.%d' % k] = l
        have = {c['pair_id']: c for c in o['pcfg']}
        for k, l in enumerate(det['cfgs']): E['det.cfgpage.%d' % k] = l and [c['pair_id'] if have.get(c['pair_id']) == c else ['differs', c] for c in l]
        for k, l in enumerate(det['inputs']): E['det.inputpage.%d' % k] = l
        M['view.ratio'], M['view.lp_price'] = int(det['pool']['ratio']), int(det['pool']['lp_price'])
        M['view.value'] = sum(int(det['pool'][k]) for k in ('tokens', 'vb', 'unreal', 'pnl'))
        w = det['own']
        for a, x in enumerate(w['accts']):
            p = 'own.%d.' % a
            if x is None: E[p[:-1]] = None; continue
            stored = o['accts'][a]['reqs']
            ok = lambda n, r: n < len(stored) and r == stored[n]
            E[p + 'rlen'], E[p + 'fwd.%d' % (len(stored) % 5)] = x['rlen'], [n if ok(n, r) else [n, 'differs', r] for n, r in x['fwd']]
            both = [(n, r) for n, r in zip(x['probes'], x['one'])] + [(n, r) for n, r in zip(x['probes'], x['some'])]
            E[p + 'present'] = [r is not None for r in x['one']]
            if [r is not None for r in x['some']] != E[p + 'present'] or any(r is not None and not ok(n, r) for n, r in both): E[p + 'present'] = ['differs', x['one'], x['some']]
        E['own.env'] = w['env']
        for n, l in enumerate(w['allocs']): E['own.alloc.%d' % n] = l
        for k, l in enumerate(w['cfgs']): E['own.cfgpage.%d' % k] = l and [c['pair_id'] if have.get(c['pair_id']) == c else ['differs', c] for c in l]
        E['own.known'] = w['known'] and [p for p, c in w['known'] if c is not None and have.get(p) == c]
        E['own.plen'], E['own.blank'] = w['plen'], w['blank']
    for k in ('tokens', 'vb', 'unreal', 'skew', 'pnl'): M['pool.' + k] = int(o['pool'][k])
    for k in PAIRS:
        q = o['pool']['pairs'][k]
        for f in ('oiL', 'oiS', 'cost', 'skew', 'pnl', 'f2', 'fl', 'fs', 'price'): M['pair.%s.%s' % (k, f)] = int(q[f])
        E['pair.%s.last' % k] = q['last']
    M['prot'], M['treas'] = int(o['prot']), int(o['treas'])
    f = o['fd']
    M['fd.vb'], M['fd.max_lock'], M['fd.mult'], E['fd.cont'], M['fd.xrd'] = int(f['vb']), int(f['max_lock']), int(f['mult']), f['cont'], int(o['fdxrd'])
    for k, v in o['cfg'].items(): E['cfg.' + k] = str(v)
    E['plist'] = [c['pair_id'] for c in o['pcfg']]
    if o['pair_list'] != E['plist'] or o['pair_len'] != len(E['plist']): E['plist'] = ['differ', E['plist'], o['pair_list'], o['pair_len']]
    for c in o['pcfg']:
        for k, v in c.items(): E['pcfg.%s.%s' % (c['pair_id'], k)] = str(v)
    E['ccfgk'] = sorted(o['ccfg'])
    if o['coll_list'] != E['ccfgk']: E['ccfgk'] = ['differ', E['ccfgk'], o['coll_list']]
    for r, c in o['ccfg'].items():
        for k in ('pair_id', 'price_age_max', 'discount', 'margin'): E['ccfg.%s.%s' % (r, k)] = str(c[k])
    E['refs'] = len(o['refs'])
    for n, r in enumerate(o['refs']):
        p = 'refs.%d.' % n
        M[p + 'balance'], M[p + 'total'] = int(r['balance']), int(r['total'])
        E[p + 'rates'] = [r['fee_referral'], r['fee_rebate']]
        E[p + 'n'], E[p + 'max'] = r['n'], r['max']
        E[p + 'allocs'] = [[al['claims'], al['n'], al['max']] for al in r['allocs']]
    for k, c in o['codes'].items():
        if c: E['codes.' + k] = [c['ref'], c['claims'], c['n'], c['max']]
    for r, v in o['refvault'].items(): M['refvault.' + r] = int(v)
    for r, l in o['perms'].items(): E['perms.' + r] = l
    E['wrapper'] = [[w[0], w[1]] for w in o['wrapper']]
    for w in o['wrapper']: M['wrapper.' + w[0]] = int(w[2])
    for r, v in o['wallet'].items(): M['wallet.' + r] = int(v)
    for r, v in o['target'].items(): M['target.' + r] = int(v)
    for r, v in o['reject'].items(): M['reject.' + r] = int(v)
    for r, v in o['supply'].items(): M['supply.' + r] = int(v)
    M['exauth'] = int(o['exauth'])
    for f, (q, t) in o['oracle'].items(): E['oracle.' + f] = [q, t]
    return E, M


def diff(exp, obs, skip=()):
    """paths on which expectation and observation disagree"""
    (E, M), (OE, OM) = exp, obs
    out = []
    for k, v in E.items():
        if k not in OE:
            if k.startswith('perms.') and all(not x for x in v): continue
            out.append((k, v, None))
        elif OE[k] != v: out.append((k, v, OE[k]))
    for k in OE:
        if k not in E and not (k.startswith('perms.') and all(not x for x in OE[k])) and not k.endswith('.last'): out.append((k, None, OE[k]))
    for k, v in M.items():
        w = OM.get(k)
        if w is None and '.' in k and k.split('.')[0] in ('wallet', 'target', 'refvault', 'wrapper'): w = 0
        if w is None: out.append((k, v, None)); continue
        if abs(v - w) > 10**9 + max(abs(v), abs(w)) // 10**15 * (0 if k.startswith('wallet') else 1): out.append((k, v, w))
    for k, w in OM.items():
        if k not in M and k not in ('fd.xrd',) and not k.startswith('view') and not k.startswith(('det.', 'own.')) and '.view.' not in k and w != 0: out.append((k, None, w))
    return [d for d in out if not any(d[0].startswith(x) for x in skip)]
