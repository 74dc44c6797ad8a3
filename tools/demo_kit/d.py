"""A small scenario language for demonstrations: steps on the real blueprints and assertions about what happened."""
import json, os, subprocess, sys
from decimal import Decimal, getcontext
getcontext().prec = 80
T0 = 1800000000
ATTO = 10**18
PRICES = {'P1': 100, 'P2': 2000, 'P3': '0.05', 'P4': 1, 'FC1': 1, 'FC2': 20}
EX = dict(active_requests_max=100, adl_a='0.07', adl_b='0.07', adl_offset='0.2', collaterals_max=5, fee_liquidity_add='0.001', fee_liquidity_remove='0.001', fee_max='0.01',
          fee_share_protocol='0.22', fee_share_referral='1', fee_share_treasury='0.08', positions_max=30, protocol_burn_amount=10000, reward_keeper=1, skew_ratio_cap=1000)
PAIR = dict(price_age_max=60, oi_max=1000000000, trade_size_min=0, update_price_delta_ratio='0.005', update_period_seconds=3600, margin_initial='0.01', margin_maintenance='0.005',
            funding_1=0, funding_2=0, funding_2_delta=0, funding_2_decay=0, funding_pool_0=0, funding_pool_1=0, funding_share=0, fee_0=0, fee_1=0)
COLL = dict(price_age_max=60, discount='0.9', margin='0.01')
INTS = {'active_requests_max', 'collaterals_max', 'positions_max', 'price_age_max', 'update_period_seconds'}
EXITS = []

def A(x): return str(int(Decimal(str(x)) * ATTO))
def num(s): return Decimal(s) / ATTO
def cfg(base, over):
    d = dict(base); d.update(over)
    return {k: (v if k in INTS or k in ('pair_id', 'res') else A(v)) for k, v in d.items()}
def toks(d): return [[r, A(v)] for r, v in d.items()] if isinstance(d, dict) else [[r, A(v)] for r, v in d]


class Demo:
    def __init__(self):
        self.t, self.steps, self.asserts, self.px, self.codes, self.rules = T0, [], [], dict(PRICES), set(), set()
    def at(self, dt): self.t += dt; return self
    def prices(self, **kw): self.px.update(kw); return self
    def msg(self, only=None, t=None, **kw):
        p = {f: q for f, q in self.px.items() if only is None or f in only}
        m = {'prices': [[f, A(q), self.t if t is None else t] for f, q in p.items()], 'key': 0, 'seed': 1, 'tamper': ''}
        m.update(kw); return m
    def do(self, kind, by=(), ok=True, why='', **op):
        """one transaction; ok=True/False is asserted, None is not"""
        op['op'] = kind
        st = {'t': self.t, 'signers': [by] if isinstance(by, str) else list(by), 'op': op}
        self.steps.append(st); n = len(self.steps) - 1
        if ok is not None: self.asserts.append((n, lambda r: r['ok'] == ok, why or ('%s must be %s' % (kind, 'accepted' if ok else 'rejected'))))
        return n
    def see(self, f, why):
        """asserts something about the state after the last transaction"""
        self.asserts.append((len(self.steps) - 1, lambda r: bool(f(r['obs'])), why))
    def got(self, f, why): self.asserts.append((len(self.steps) - 1, lambda r: bool(f(r)), why))
    # --- common transactions ---
    def world(self, pairs=('P1',), colls=('C1',), liq=1000000, ex={}, pair={}, coll={}):
        self.do('ex_cfg', 'D', cfg=cfg(EX, ex))
        if pairs: self.do('pair_cfg', 'D', cfgs=[dict(cfg(PAIR, pair), pair_id=p) for p in pairs])
        if colls: self.do('coll_cfg', 'D', cfgs=[dict(cfg(COLL, coll), pair_id={'C1': 'FC1', 'C2': 'FC2', 'C3': 'FC1'}[c], res=c) for c in colls])
        self.push()
        if liq: self.do('add_liq', amount=A(liq), res='BASE')
    def pair(self, p, **over): self.do('pair_cfg', 'D', cfgs=[dict(cfg(PAIR, over), pair_id=p)])
    def push(self, **kw): self.do('push', px=self.msg(**kw), want=[])
    def account(self, k, tokens, code=None, **kw): return self.do('create_account', rule=k, tokens=toks(tokens), code=code, oath=None, **kw)
    def order(self, a, k, pair, amt, **kw):
        o = dict(delay=0, expiry=1000000, act=[], can=[], reduce=False, plim=['none', '0'], slip=['none', '0'], status=1, oath=None)
        ok, why = kw.pop('ok', True), kw.pop('why', '')
        for x in ('plim', 'slip'):
            if x in kw: kw[x] = [kw[x][0], A(kw[x][1])]
        o.update(kw)
        return self.do('order', k, acct=a, pair=pair, amt=A(amt), ok=ok, why=why, **o)
    def process(self, a, n, ok=True, why='', px=True): return self.do('process', acct=a, index=n, px=self.msg() if px else None, ok=ok, why=why)
    def trade(self, a, k, pair, amt, n, **kw):
        self.order(a, k, pair, amt); self.at(1); return self.process(a, n, **kw)
    def withdraw(self, a, k, claims, target='TARGET', expiry=1000, **kw): return self.do('remove_req', k, acct=a, claims=toks(claims), expiry=expiry, oath=None, target=target, **kw)
    # --- running ---
    def run(self):
        sc = {'id': 'demo', 'rules': sorted(self.rules), 'codes': sorted(self.codes), 'feeds': ['FC1', 'FC2'], 'steps': self.steps}
        r = subprocess.run([os.environ['HARNESS'], 'run'], input=json.dumps(sc) + '\n', stdout=subprocess.PIPE, text=True)
        if not r.stdout.strip(): print('the ledger process died'); return 1
        rec = json.loads(r.stdout.splitlines()[0])['steps']
        bad = 0
        for n, f, why in self.asserts:
            try: good = f(rec[n])
            except Exception as x: good = False; why += ' (%r)' % x
            if not good:
                bad += 1
                print('FAILED after step %d (%s): %s%s' % (n, self.steps[n]['op']['op'], why, '' if rec[n]['ok'] else '\n    ' + str(rec[n].get('err'))[:300]))
        print('%d steps, %d assertions, %d failed' % (len(self.steps), len(self.asserts), bad))
        if os.environ.get('DUMP'): print(json.dumps(rec[-1], indent=1)[:6000])
        return 1 if bad else 0
