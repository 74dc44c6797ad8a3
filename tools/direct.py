"""Properties evaluated directly on what the real ledger reports, without the expected trace.
Each rule yields (property, message) for one observation; history rules see the previous one too."""

RES = ('BASE', 'C1', 'C2', 'C3')
SINGLE = 10**6          # attos: rounding of a few divisions


def ival(d, k): return int(d.get(k, 0) or 0)


def listings(rule):
    """the single rules an account level is listed under: the rule itself and each alternative of a flat any-of list"""
    if rule.startswith('any('):
        parts, depth, cur = [], 0, ''
        for c in rule[4:-1]:
            if c == ',' and depth == 0: parts.append(cur); cur = ''; continue
            depth += (c == '(') - (c == ')'); cur += c
        parts.append(cur)
        return [rule] + parts if all('(' not in p for p in parts) else None
    return [rule]


def state(o):
    A, P = o['accts'], o['pool']
    total = int(P['vb']) + sum(int(a['vb']) for a in A) + int(o['prot']) + int(o['treas']) + int(o['fd']['vb']) + sum(int(r['balance']) for r in o['refs'])
    if total != 0: yield 'P01', 'internal balances add up to %d attos' % total
    held = int(P['tokens']) + ival(o['wallet'], 'BASE') + ival(o['target'], 'BASE') + ival(o['refvault'], 'BASE') + ival(o['reject'], 'BASE')
    if held != ival(o['supply'], 'BASE'): yield 'P01', 'base tokens held by all parties are %d attos, supply is %d' % (held, ival(o['supply'], 'BASE'))
    for p, q in P['pairs'].items():
        pos = [[int(x) for x in a['pos'][p]] for a in A if p in a['pos']]
        L, S, C = sum(max(x[0], 0) for x in pos), sum(max(-x[0], 0) for x in pos), sum(x[1] for x in pos)
        for n, want, got in (('long interest', L, int(q['oiL'])), ('short interest', S, int(q['oiS'])), ('cost', C, int(q['cost']))):
            if want != got: yield 'P02', 'pair %s: %s of the pool is %d, accounts add up to %d' % (p, n, got, want)
        net = int(q['oiL']) - int(q['oiS'])
        px = int(q['price'])
        sk, pn = abs(net) * px // 10**18, int(q['cost']) - net * px // 10**18
        if abs(sk - int(q['skew'])) > SINGLE: yield 'P02', 'pair %s: recorded skew %s, implied %d' % (p, q['skew'], sk)
        if (abs(pn - int(q['pnl'])) > SINGLE): yield 'P02', 'pair %s: recorded profit %s, implied %d' % (p, q['pnl'], pn)
    for n in ('skew', 'pnl'):
        if int(P[n]) != sum(int(q[n]) for q in P['pairs'].values()): yield 'P02', 'total %s is %s, pairs add up to %d' % (n, P[n], sum(int(q[n]) for q in P['pairs'].values()))
    for k, a in enumerate(A):
        if any(int(x[0]) == 0 for x in a['pos'].values()): yield 'P02', 'account %d has a position of size zero' % k
        nz = lambda d: {r: int(v) for r, v in d.items() if int(v)}
        if nz(a['coll']) != nz(a['vault']): yield 'P16', 'account %d records collateral %s but its vaults hold %s' % (k, nz(a['coll']), nz(a['vault']))
        if any(int(v) < 0 for v in a['coll'].values()): yield 'P16', 'account %d has negative collateral' % k
        live = [n for n, r in enumerate(a['reqs']) if n >= a['vrs'] and r['status'] in (0, 1)] if len(a['reqs']) == a['rlen'] else None
        if live is not None and live != a['active']: yield 'P10', 'account %d: active requests %s, pending and valid %s' % (k, a['active'], live)
        if a['alen'] != len(a['active']): yield 'P10', 'account %d: counts %d active requests but lists %s' % (k, a['alen'], a['active'])
    # registry against the rules the accounts really carry
    if o.get('perms') and not any(listings(r) is None for a in A for r in a['roles']):
        for rule, ls in o['perms'].items():
            for l in range(3):
                want = [k for k, a in enumerate(A) if rule in listings(a['roles'][l])]
                if sorted(ls[l]) != want: yield 'P13', 'registry lists accounts %s for rule %s at level %d, accounts carrying it are %s' % (sorted(ls[l]), rule, l + 1, want)
    for r in RES:
        owed = sum((c['max'] - c['n']) * int(x[1]) for c in o['codes'].values() if c for x in c['claims'] if x[0] == r)
        owed += sum((al['max'] - al['n']) * int(x[1]) for f in o['refs'] for al in f['allocs'] for x in al['claims'] if x[0] == r)
        if ival(o['refvault'], r) < owed: yield 'P18', 'referral vault holds %d %s but codes and allocations promise %d' % (ival(o['refvault'], r), r, owed)
    for k, c in o['codes'].items():
        if c and c['n'] > c['max']: yield 'P18', 'code %s claimed %d of %d times' % (k, c['n'], c['max'])
    for n, f in enumerate(o['refs']):
        for al in f['allocs']:
            if al['n'] > al['max']: yield 'P18', 'referral %d handed out %d of %d' % (n, al['n'], al['max'])
        if int(f['balance']) < 0: yield 'P22', 'referral %d has a negative balance' % n
    for w in o['wrapper']:
        if int(w[2]) != ival(o['twvault'], w[0]): yield 'P20', 'wrapper reports %s of %s but holds %d' % (w[2], w[0], ival(o['twvault'], w[0]))
    issued = ival(o['supply'], 'BASE') - 10**29
    if o.get('twvault') is not None and issued > sum(int(x) for x in o['twvault'].values()): yield 'P20', 'wrapper issued %d base tokens but holds %s' % (issued, o['twvault'])
    for r in ('OATH', 'FLASH'):
        if ival(o['supply'], r): yield 'P21' if r == 'OATH' else 'P20', '%s tokens survive the transaction' % r


def moves(before, after, batch_ok):
    """rules over two consecutive observations"""
    if before is None: return
    for k, (x, y) in enumerate(zip(before['accts'], after['accts'])):
        for n, (r, q) in enumerate(zip(x['reqs'], y['reqs'])):
            if r['status'] not in (0, 1) and q['status'] != r['status']: yield 'P10', 'account %d request %d left its final state %d for %d' % (k, n, r['status'], q['status'])
            if {k2: v for k2, v in r.items() if k2 != 'status'} != {k2: v for k2, v in q.items() if k2 != 'status'}: yield 'P10', 'account %d request %d changed its content' % (k, n)
        if y['rlen'] < x['rlen'] or y['vrs'] < x['vrs']: yield 'P10', 'account %d: requests or their valid start went backwards' % k
    for f, (q, t) in before['oracle'].items():
        g = after['oracle'].get(f)
        if g and (g[1] < t or (g[1] == t and g[0] != q)): yield 'P15', 'feed %s went from %s to %s' % (f, (q, t), g)
    if not batch_ok:
        skip = {'fdxrd', 'fd'}
        for k in before:
            if k not in skip and k != 'details' and before[k] != after.get(k): yield 'P01', 'only rejected operations ran but %s changed' % k
