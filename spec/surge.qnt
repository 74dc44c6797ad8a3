// What every operation of the exchange does: a deterministic function from a state and a step
// to the next state, or a rejection that leaves no trace.
module surge {
  import dec.* from "./dec"
  import types.* from "./types"
  export types.*

  // ---- Transactions ----
  // near: some comparison was so close that rounding could decide it.
  type Tx = { ok: bool, near: bool, s: State, out: List[int], ev: List[Ev] }

  pure def begin(s: State): Tx = { ok: true, near: false, s: s, out: [], ev: [] }
  pure def refuse(s: State): Tx = { ok: false, near: false, s: s, out: [], ev: [] }
  // (the simulator shares one binding of t between nested calls of bind: what is needed of t is read before f runs)
  pure def merge(t: Tx, r: Tx): Tx = { ...r, near: t.near or r.near, out: t.out.concat(r.out), ev: t.ev.concat(r.ev) }
  pure def bind(t: Tx, f: State => Tx): Tx = if (t.ok) merge(t, f(t.s)) else t
  pure def upd(t: Tx, f: State => State): Tx = if (t.ok) { ...t, s: f(t.s) } else t
  pure def chk(t: Tx, f: State => bool): Tx = if (t.ok) { ...t, ok: f(t.s) } else t
  pure def need(s: State, c: bool): Tx = { ok: c, near: false, s: s, out: [], ev: [] }
  pure def needLe(s: State, a: int, b: int): Tx = { ok: a <= b, near: close(a, b), s: s, out: [], ev: [] }
  pure def needLt(s: State, a: int, b: int): Tx = { ok: a < b, near: close(a, b), s: s, out: [], ev: [] }
  pure def andNear(t: Tx, n: bool): Tx = { ...t, near: t.near or n }
  pure def ret(t: Tx, o: List[int]): Tx = { ...t, out: o }
  // Announces what happened; f reads the state at that point.
  pure def tell(t: Tx, f: State => List[Ev]): Tx = if (t.ok) { ...t, ev: t.ev.concat(f(t.s)) } else t
  pure def event(k: str, ids: List[str], n: List[int], m: List[int]): Ev = { k: k, t: ids, n: n, m: m }

  // ---- Small helpers ----
  pure def amountOf(m: str -> int, k: str): int = if (m.keys().contains(k)) m.get(k) else 0
  pure def addTo(m: str -> int, k: str, v: int): str -> int = m.put(k, amountOf(m, k) + v)
  pure def without(m: str -> a, k: str): str -> a = m.keys().exclude(Set(k)).mapBy(x => m.get(x))
  pure def toSet(l: List[a]): Set[a] = l.foldl(Set(), (acc, e) => acc.union(Set(e)))
  pure def sum(l: List[int]): int = l.foldl(0, (a, b) => a + b)
  pure def pairsIn(ids: Set[str]): List[str] = PAIRS.select(p => ids.contains(p))

  pure def give(s: State, res: str, v: int): State = { ...s, wallet: addTo(s.wallet, res, v) }
  pure def mint(s: State, res: str, v: int): State = { ...s, supply: addTo(s.supply, res, v) }
  // Takes tokens out of the caller's wallet (an amount that is not positive takes nothing).
  pure def pay(s: State, res: str, v: int): Tx =
    if (v <= 0) begin(s) else need(give(s, res, -v), amountOf(s.wallet, res) >= v)
  pure def payAll(s: State, ts: Tokens): Tx = ts.foldl(begin(s), (t, x) => t.bind(s1 => pay(s1, x._1, x._2)))
  pure def reward(s: State): State = s.give("KEEP", s.cfg.reward_keeper).mint("KEEP", s.cfg.reward_keeper)

  pure def hasAcct(s: State, a: int): bool = a >= 0 and a < length(s.accts)
  pure def setAcct(s: State, a: int, x: Acct): State = { ...s, accts: s.accts.replaceAt(a, x) }
  pure def addVb(s: State, a: int, v: int): State = { val x = s.accts[a] s.setAcct(a, { ...x, vb: x.vb + v }) }
  pure def poolVb(s: State, v: int): State = { ...s, pool: { ...s.pool, vb: s.pool.vb + v } }
  pure def poolTokens(s: State, v: int): State = { ...s, pool: { ...s.pool, tokens: s.pool.tokens + v } }
  pure def settle(s: State, a: int, v: int): State = s.addVb(a, v).poolVb(-v)

  pure def posOf(x: Acct, p: str): Pos = if (x.pos.keys().contains(p)) x.pos.get(p) else zeroPos
  pure def setPos(s: State, a: int, p: str, q: Pos): State = {
    val x = s.accts[a]
    s.setAcct(a, { ...x, pos: if (q.amt == 0) without(x.pos, p) else x.pos.put(p, q) })
  }
  pure def pairOf(s: State, p: str): PoolPair = if (s.pool.pairs.keys().contains(p)) s.pool.pairs.get(p) else zeroPair(s.now)
  pure def setPair(s: State, p: str, q: PoolPair): State = { ...s, pool: { ...s.pool, pairs: s.pool.pairs.put(p, q) } }

  // Access: exchange operations need the role's rule and the exchange's own authority token.
  pure def role(s: State, r: str): Tx = need(s, ruleSat(s.roles.get(r), s.sig) and s.exauth > 0)
  pure def owner(s: State): Tx = need(s, s.sig.contains("D"))
  pure def level(s: State, a: int, l: int): Tx = need(s, hasAcct(s, a)).chk(s1 => ruleSat(s1.accts[a].roles[l - 1], s1.sig))

  // ---- Prices ----
  pure def pushValid(s: State, px: Px): bool =
    px.tamper == "" and s.keys.keys().contains(px.key) and s.keys.get(px.key) == px.seed
  pure def pushPrices(s: State, l: List[(str, int, int)]): State = l.foldl(s, (s1, e) =>
    if (not(s1.prices.keys().contains(e._1)) or e._3 > s1.prices.get(e._1)._2)
      { ...s1, prices: s1.prices.put(e._1, (e._2, e._3)) }
    else s1)
  pure def price(s: State, p: str): int = s.prices.get(p)._1
  pure def collFeeds(s: State): str -> int = s.ccfg.keys().fold(Map(), (m, r) => {
    val c = s.ccfg.get(r)
    if (m.keys().contains(c.pair_id)) m.put(c.pair_id, dmin(m.get(c.pair_id), c.price_age_max)) else m.put(c.pair_id, c.price_age_max)
  })
  // Reads the prices of pairs (with their ages) and of every configured collateral.
  pure def readPrices(s: State, ages: str -> int, px: Px): Tx = {
    val cf = collFeeds(s)
    val ids = ages.keys().union(cf.keys())
    need(s, not(px.on) or pushValid(s, px))
      .upd(s1 => if (px.on) pushPrices(s1, px.prices) else s1)
      .chk(s1 => ids.forall(p => {
        val age = if (not(cf.keys().contains(p))) ages.get(p) else if (not(ages.keys().contains(p))) cf.get(p) else dmin(ages.get(p), cf.get(p))
        s1.prices.keys().contains(p) and s1.prices.get(p)._2 > s1.now - age and s1.prices.get(p)._1 > 0
      }))
  }
  pure def hasCfg(s: State, ps: Set[str]): bool = ps.forall(p => s.pcfg.keys().contains(p))
  pure def pairAges(s: State, ps: Set[str]): str -> int = ps.mapBy(p => s.pcfg.get(p).price_age_max)

  // ---- Valuation ----
  pure def poolValue(s: State): int = s.pool.tokens + s.pool.vb + s.pool.unreal + s.pool.pnl
  pure def skewRatio(s: State): int = ddiv(s.pool.skew, dmax(poolValue(s), ONE))
  // The same quotient of the same exact numbers.
  pure def sameRatio(s: State, t: State): bool =
    s.pool.skew == t.pool.skew and s.pool.skew % (10^6) == 0 and poolValue(s) == poolValue(t) and poolValue(s) % (10^6) == 0
  pure def rebate(s: State, x: Acct): int = if (x.ref < 0) ONE else ONE - s.refs[x.ref].fee_rebate

  pure def tradeFee(s: State, p: str, reb: int, pr: int, value: int): int = {
    val q = pairOf(s, p)
    val c = s.pcfg.get(p)
    val v = abs(value)
    val skew = dmul(q.oiL - q.oiS, pr)
    val fee0 = dmul(v, c.fee_0)
    val fee1 = dmul(dmul(value, 2 * skew + value), c.fee_1)
    clamp(dmul(fee0 + fee1, reb), 0, dmul(v, s.cfg.fee_max))
  }
  pure def fundingOwed(s: State, x: Acct, p: str): int = {
    val o = posOf(x, p)
    val q = pairOf(s, p)
    if (o.amt > 0) dmul(o.amt, q.fl - o.fidx) else dmul(-o.amt, q.fs - o.fidx)
  }
  type Valuation = { pnl: int, margin: int, fee: int, funding: int }
  pure def valuePositions(s: State, x: Acct, maint: bool): Valuation =
    pairsIn(x.pos.keys()).foldl({ pnl: 0, margin: 0, fee: 0, funding: 0 }, (acc, p) => {
      val o = x.pos.get(p)
      val pr = price(s, p)
      val value = dmul(-o.amt, pr)
      val fee = tradeFee(s, p, rebate(s, x), pr, value)
      val f = fundingOwed(s, x, p)
      val c = s.pcfg.get(p)
      { pnl: acc.pnl - value - o.cost - fee - f,
        margin: acc.margin + dmul(abs(value), if (maint) c.margin_maintenance else c.margin_initial),
        fee: acc.fee + fee, funding: acc.funding + f }
    })
  pure def configuredColl(s: State, x: Acct): List[str] =
    COLLATERAL.select(r => x.coll.keys().contains(r) and s.ccfg.keys().contains(r))
  pure def valueCollateral(s: State, x: Acct): { value: int, margin: int } =
    configuredColl(s, x).foldl({ value: 0, margin: 0 }, (acc, r) => {
      val c = s.ccfg.get(r)
      val v = dmul(x.coll.get(r), price(s, c.pair_id))
      { value: acc.value + dmul(v, c.discount), margin: acc.margin + dmul(v, c.margin) }
    })
  // What the account is worth beyond its initial (or maintenance) margin.
  pure def surplus(s: State, a: int, maint: bool): int = {
    val x = s.accts[a]
    val vp = valuePositions(s, x, maint)
    val vc = valueCollateral(s, x)
    (vp.pnl + vc.value + x.vb) - (vp.margin + vc.margin)
  }
  pure def accountIntegrity(s: State, a: int): Tx = needLe(s, 0, surplus(s, a, false))
  pure def poolIntegrity(s: State, delta: int): Tx = {
    val r = skewRatio(s)
    { ok: r < s.cfg.skew_ratio_cap or delta < 0, near: close(r, s.cfg.skew_ratio_cap) or close(delta, 0), s: s, out: [], ev: [] }
  }

  // ---- Pair updates: snapshots, funding ----
  pure def snap(s: State, p: str): State = {
    val q = pairOf(s, p)
    val skew = dmul(q.oiL - q.oiS, price(s, p))
    val pnl = q.cost - skew
    val s1 = s.setPair(p, { ...q, skew: abs(skew), pnl: pnl })
    { ...s1, pool: { ...s1.pool, skew: s1.pool.skew + abs(skew) - q.skew, pnl: s1.pool.pnl + pnl - q.pnl } }
  }
  // The adaptive rate moves with skew, is clamped between the open interests, and from outside only decays back.
  pure def nextRate(q: PoolPair, c: CfgP, skew: int, pr: int, period: int): int = {
    val hi = dmul(q.oiL, pr)
    val lo = -dmul(q.oiS, pr)
    val delta = dmul(dmul(skew, c.funding_2_delta), period)
    val k = dmin(dmul(c.funding_2_decay, period), ONE)
    if (q.f2 > hi) {
      val r = q.f2 - dmul(q.f2 - hi, k)
      if (delta < 0) (if (r + delta < lo) lo else r + delta) else r
    } else if (q.f2 < lo) {
      val r = q.f2 - dmul(q.f2 - lo, k)
      if (delta > 0) (if (r + delta > hi) hi else r + delta) else r
    } else clamp(q.f2 + delta, lo, hi)
  }
  type Upd = { s: State, flag: bool, near: bool }
  pure def updatePair(s0: State, p: str): Upd = {
    val before = pairOf(s0, p)
    val s = snap(s0, p)
    val q = pairOf(s, p)
    val c = s.pcfg.get(p)
    val pr = price(s, p)
    val secs = s.now - before.last
    val period = ddiv(i(secs), i(31536000))
    val ratio = ddiv(abs(pr - before.price), before.price)
    val skew = dmul(q.oiL - q.oiS, pr)
    val flag = secs >= c.update_period_seconds or ratio >= c.update_price_delta_ratio
    val near = secs < c.update_period_seconds and close(ratio, c.update_price_delta_ratio)
    val base = { ...q, last: s.now, price: pr }
    if (period == 0) { s: s.setPair(p, base), flag: flag, near: near }
    else {
      val f2 = nextRate(q, c, skew, pr, period)
      if (q.oiL == 0 or q.oiS == 0) { s: s.setPair(p, { ...base, f2: f2 }), flag: flag, near: near }
      else {
        val rate = dmul(skew, c.funding_1) + dmul(clamp(f2, -dmul(q.oiS, pr), dmul(q.oiL, pr)), c.funding_2)
        val paid = dmul(abs(rate), period)
        val share = dmul(paid, c.funding_share)
        val li = if (rate > 0) ddiv(paid, q.oiL) else ddiv(-(paid - share), q.oiL)
        val si = if (rate > 0) ddiv(-(paid - share), q.oiS) else ddiv(paid, q.oiS)
        val poolRate = dmul(dmul(q.oiL + q.oiS, pr), c.funding_pool_0) + dmul(abs(skew), c.funding_pool_1)
        val poolPaid = dmul(poolRate, period)
        val pi = ddiv(poolPaid, q.oiL + q.oiS)
        val s2 = s.setPair(p, { ...base, f2: f2, fl: q.fl + li + pi, fs: q.fs + si + pi })
        { s: { ...s2, pool: { ...s2.pool, unreal: s2.pool.unreal + poolPaid + share } }, flag: flag, near: near }
      }
    }
  }
  pure def pairEvents(s: State, ids: Set[str]): List[Ev] = pairsIn(ids).foldl([], (l, p) => {
    val q = pairOf(s, p)
    l.append(event("PairUpdate", [p], [q.last], [q.oiL, q.oiS, q.cost, q.skew, q.pnl, q.f2, q.fl, q.fs, q.price]))
  })
  pure def settleFunding(s: State, a: int, p: str): State = {
    val x = s.accts[a]
    if (not(x.pos.keys().contains(p))) s else {
      val f = fundingOwed(s, x, p)
      val q = pairOf(s, p)
      val o = x.pos.get(p)
      val s1 = s.setPos(a, p, { ...o, fidx: if (o.amt > 0) q.fl else q.fs })
      { ...s1, pool: { ...s1.pool, unreal: s1.pool.unreal - f } }.settle(a, -f)
    }
  }

  // ---- Fees ----
  pure def feesBasic(s: State, fee: int): State = {
    val p = dmul(fee, s.cfg.fee_share_protocol)
    val t = dmul(fee, s.cfg.fee_share_treasury)
    { ...s, prot: s.prot + p, treas: s.treas + t }.poolVb(-p - t)
  }
  pure def feesReferral(s: State, a: int, fee: int): State = {
    val x = s.accts[a]
    val s1 = feesBasic(s, fee)
    if (x.ref < 0) s1 else {
      val r = s1.refs[x.ref]
      val v = dmul(dmul(fee, s.cfg.fee_share_referral), r.fee_referral)
      { ...s1, refs: s1.refs.replaceAt(x.ref, { ...r, balance: r.balance + v, total: r.total + v }) }.poolVb(-v)
    }
  }

  // The parts of a fee as announced: pool, protocol, treasury (and referrer), as seen by the payer.
  pure def feeParts(s: State, fee: int): List[int] = {
    val p = dmul(fee, s.cfg.fee_share_protocol)
    val t = dmul(fee, s.cfg.fee_share_treasury)
    [-(fee - p - t), -p, -t]
  }
  pure def feeParts4(s: State, a: int, fee: int): List[int] = {
    val x = s.accts[a]
    val l = feeParts(s, fee)
    val r = if (x.ref < 0) 0 else dmul(dmul(fee, s.cfg.fee_share_referral), s.refs[x.ref].fee_referral)
    [l[0] + r, l[1], l[2], -r]
  }

  // ---- Positions ----
  type Closed = { s: State, pnl: int, fee: int }
  pure def closePosition(s: State, a: int, p: str, amt: int): Closed = {
    val x = s.accts[a]
    val o = x.pos.get(p)
    val q = pairOf(s, p)
    val pr = price(s, p)
    val value = dmul(amt, pr)
    val fee = tradeFee(s, p, rebate(s, x), pr, value)
    val cost = dmul(ddiv(-amt, o.amt), o.cost)
    val pnl = -value - cost - fee
    val q1 = if (amt < 0) { ...q, oiL: q.oiL + amt, cost: q.cost - cost } else { ...q, oiS: q.oiS - amt, cost: q.cost - cost }
    val s1 = s.setPair(p, q1).setPos(a, p, { ...o, amt: o.amt + amt, cost: o.cost - cost }).settle(a, pnl).snap(p)
    { s: s1, pnl: pnl, fee: fee }
  }
  type Opened = { tx: Tx, fee: int }
  pure def openPosition(s: State, a: int, p: str, amt: int): Opened = {
    val x = s.accts[a]
    val o = posOf(x, p)
    val q = pairOf(s, p)
    val c = s.pcfg.get(p)
    val pr = price(s, p)
    val value = dmul(amt, pr)
    val fee = tradeFee(s, p, rebate(s, x), pr, value)
    val q1 = if (amt > 0) { ...q, oiL: q.oiL + amt, cost: q.cost + value + fee } else { ...q, oiS: q.oiS - amt, cost: q.cost + value + fee }
    val oi = if (amt > 0) q1.oiL else q1.oiS
    val s1 = s.setPair(p, q1).setPos(a, p, { amt: o.amt + amt, cost: o.cost + value + fee, fidx: if (o.amt + amt > 0) q.fl else q.fs }).snap(p)
    { tx: needLe(s1, oi, c.oi_max)
        .chk(s2 => s2.accts[a].pos.keys().size() <= s2.cfg.positions_max)
        .bind(s2 => accountIntegrity(s2, a)),
      fee: fee }
  }

  // ---- Requests ----
  pure def pending(r: Req): bool = r.status == ACTIVE or r.status == DORMANT
  pure def hasReq(x: Acct, n: int): bool = n >= 0 and n < length(x.reqs)
  pure def pushReq(s: State, a: int, r: Req, delay: int, expiry: int): Tx =
    need(s, (r.status == ACTIVE or r.status == DORMANT) and delay <= I64MAX and expiry <= I64MAX and s.now + delay + expiry <= I64MAX)
      .upd(s1 => {
        val x = s1.accts[a]
        s1.setAcct(a, { ...x, reqs: x.reqs.append({ ...r, sub: s1.now + delay, exp: s1.now + delay + expiry }),
          active: x.active.union(Set(length(x.reqs))) })
      })
  pure def requestLimit(s: State, a: int): Tx = need(s, s.accts[a].active.size() <= s.cfg.active_requests_max)
  pure def setStatus(s: State, a: int, n: int, st: int): State = {
    val x = s.accts[a]
    s.setAcct(a, { ...x, reqs: x.reqs.replaceAt(n, { ...x.reqs[n], status: st }),
      active: if (st == ACTIVE or st == DORMANT) x.active.union(Set(n)) else x.active.exclude(Set(n)) })
  }
  // Linked requests: those that cannot take the new status are left alone; a missing one rejects everything.
  pure def trySetStatus(s: State, a: int, l: List[int], st: int): Tx =
    need(s, l.indices().forall(k => hasReq(s.accts[a], l[k])))
      .upd(s0 => l.foldl(s0, (s1, n) => {
        val r = s1.accts[a].reqs[n]
        val can = if (st == ACTIVE) r.status == DORMANT else pending(r)
        if (can) setStatus(s1, a, n, st) else s1
      }))
  // Which of the linked requests took the new status.
  pure def changed(s: State, s1: State, a: int, l: List[int]): List[int] =
    l.foldl([], (m, n) => if (s.accts[a].reqs[n].status != s1.accts[a].reqs[n].status and not(m.indices().exists(k => m[k] == n))) m.append(n) else m)
  pure def resolve(ix: Idx, at: int): int = match ix {
    | IdxAbs(n) => n
    | IdxRel(n) => if (at + n < 0) at + n + 2^64 else at + n
  }
  pure val noReq: Req = { kind: "order", pair: "", amt: 0, reduce: false, plim: ("none", 0), slip: ("none", 0), act: [], can: [],
    claims: [], target: "", sub: 0, exp: 0, status: ACTIVE }

  // ---- Delegated fees ----
  pure def oathValue(s: State, o: Oath): int =
    if (o.mode == "none") 0 else dmul(ddiv(s.fd.mult, USD_XRD), o.amount)
  // The delegator pays the ledger's own fees, which the specification does not price: once a fee was
  // locked (even by a transaction that failed), what is left is only known from above.
  pure def haveXrd(s: State, v: int): Tx = { ok: v <= s.fd.xrd, near: not(s.fd.xrd_known) and v > s.fd.xrd - i(1000), s: s, out: [], ev: [] }
  pure def locks(op: Op): bool = match op {
    | CreateAccount(o) => o.oath.mode != "none"
    | AddColl(o) => o.oath.mode != "none"
    | RemoveReq(o) => o.oath.mode != "none"
    | Order(o) => o.oath.mode != "none"
    | Tpsl(o) => o.oath.mode != "none"
    | Cancel(o) => o.oath.mode != "none"
    | SetAuth(o) => o.oath.mode != "none"
    | AddRule(o) => o.oath.mode != "none"
    | Recovery(o) => o.oath.mode != "none"
    | FdEscape(o) => true
    | _ => false
  }
  // The lock happens before the exchange operation, its charge inside it.
  pure def lockOath(s: State, o: Oath): Tx =
    if (o.mode == "none") begin(s)
    // the ledger refuses a second lock on the same vault in one transaction
    else if (o.mode == "fake" or o.mode == "double") refuse(s)
    else {
      val v = oathValue(s, o)
      haveXrd(s, o.amount)
        .bind(s1 => needLe(s1, v, s1.fd.max_lock))
        .chk(s1 => o.amount >= 0 and (o.mode != "part" or o.part == v))
        .upd(s1 => { ...s1, fd: { ...s1.fd, vb: s1.fd.vb + v } })
    }
  // Charges the account and requires initial margin at the last known pair prices.
  pure def chargeOath(s: State, a: int, o: Oath, extra: Set[str]): Tx =
    if (o.mode == "none") begin(s) else {
      val ids = s.accts[a].pos.keys().union(extra)
      need(s, hasCfg(s, ids))
        .bind(s1 => readPrices(s1, ids.mapBy(p => I64MAX), noPx))
        .upd(s1 => s1.addVb(a, -oathValue(s1, o)))
        .bind(s1 => accountIntegrity(s1, a))
    }

  // ---- Permissions ----
  pure def listings(r: Rule): Set[Rule] =
    if (r.k == "any") Set(r).union(toSet(r.n).map(x => toRule(x))) else Set(r)
  pure def permsOf(s: State, r: Rule): List[Set[int]] = if (s.perms.keys().contains(r)) s.perms.get(r) else [Set(), Set(), Set()]
  pure def unlist(s: State, r: Rule, a: int, l: int): State = listings(r).fold(s, (s1, x) => {
    val p = permsOf(s1, x)
    { ...s1, perms: s1.perms.put(x, p.replaceAt(l - 1, p[l - 1].exclude(Set(a)))) }
  })
  pure def enlist(s: State, r: Rule, a: int, l: int): State = listings(r).fold(s, (s1, x) => {
    val p = permsOf(s1, x)
    { ...s1, perms: s1.perms.put(x, p.replaceAt(l - 1, p[l - 1].union(Set(a)))) }
  })
  pure def setLevel(s: State, a: int, l: int, r: Rule): State = {
    val x = s.accts[a]
    s.unlist(x.roles[l - 1], a, l).setAcct(a, { ...x, roles: x.roles.replaceAt(l - 1, r) }).enlist(r, a, l)
  }
  pure def extend(r: Rule, node: str): Rule =
    if (r.k == "any") { ...r, n: r.n.append(node) }
    else if (r.k == "node") { k: "any", n: r.n.append(node) }
    else toRule(node)

  // ---- Collateral ----
  pure def addCollateral(s: State, a: int, ts: Tokens): Tx = {
    val base = sum(ts.select(x => x._1 == "BASE").foldl([], (l, x) => l.append(x._2)))
    val others = ts.select(x => x._1 != "BASE")
    need(s, others.indices().forall(k => s.ccfg.keys().contains(others[k]._1)))
      .upd(s1 => others.foldl(s1.poolTokens(base).settle(a, base), (s2, x) => {
        val y = s2.accts[a]
        s2.setAcct(a, { ...y, coll: addTo(y.coll, x._1, x._2) })
      }))
      .chk(s1 => s1.accts[a].coll.keys().size() <= s1.cfg.collaterals_max)
      .tell(s1 => ts.foldl([event("AddCollateral", [], [a, length(ts)], [])], (l, x) => l.append(event("AddCollateralToken", [x._1], [a], [x._2]))))
  }
  pure def takeColl(s: State, a: int, r: str, v: int): State = {
    val x = s.accts[a]
    val left = x.coll.get(r) - v
    s.setAcct(a, { ...x, coll: if (left == 0) without(x.coll, r) else x.coll.put(r, left) })
  }
  pure def deliver(s: State, target: str, r: str, v: int): Tx =
    if (target == "TARGET") begin({ ...s, target: addTo(s.target, r, v) })
    else if (target == "WALLET") begin(s.give(r, v))
    else refuse(s)   // rejects deposits, or is no account that can hold tokens
  pure def removeCollateral(s: State, a: int, r: Req): Tx = {
    val total = r.claims.foldl(Map(), (m, c) => addTo(m, c._1, c._2))
    total.keys().fold(need(s, Set("TARGET", "WALLET", "REJECT").contains(r.target)), (t, res) => t.bind(s1 => {
      val v = total.get(res)
      if (res == "BASE")
        needLe(s1, v, s1.accts[a].vb)
          .bind(s2 => needLe(s2, v, s2.pool.tokens))
          .chk(s2 => v >= 0)
          .upd(s2 => s2.poolTokens(-v).settle(a, -v))
          .bind(s2 => deliver(s2, r.target, "BASE", v))
      else {
        val w = roundDown(dmax(v, 0), unitOf(res))
        need(s1, v > -unitOf(res) and v <= amountOf(s1.accts[a].coll, res) and s1.accts[a].coll.keys().contains(res))
          .upd(s2 => takeColl(s2, a, res, w))
          .bind(s2 => deliver(s2, r.target, res, w))
      }
    })).bind(s1 => accountIntegrity(s1, a))
      .tell(s1 => total.keys().fold([event("RemoveCollateral", [r.target], [a, total.keys().size()], [])], (l, res) =>
        l.append(event("RemoveCollateralToken", [res], [a], [if (res == "BASE") total.get(res) else roundDown(dmax(total.get(res), 0), unitOf(res))]))))
  }

  // ---- Orders ----
  pure def executeOrder(s: State, a: int, r: Req): Tx = {
    val p = r.pair
    val pr = price(s, p)
    val lim = if (r.plim._1 == "gte") needLe(s, r.plim._2, pr) else if (r.plim._1 == "lte") needLe(s, pr, r.plim._2) else begin(s)
    lim.bind(sa => {
      val s0 = settleFunding(updatePair(sa, p).s, a, p)
      val o = posOf(s0.accts[a], p)
      val shut = if (o.amt > 0 and r.amt < 0) dmax(r.amt, -o.amt) else if (o.amt < 0 and r.amt > 0) dmin(r.amt, -o.amt) else 0
      val open = if (r.reduce) 0 else r.amt - shut
      val c = if (shut != 0) closePosition(s0, a, p, shut) else { s: s0, pnl: 0, fee: 0 }
      val op: Opened = if (open != 0) openPosition(c.s, a, p, open) else { tx: begin(c.s), fee: 0 }
      val fee = c.fee + op.fee
      val value = dmul(pr, abs(open + shut))
      op.tx
        .bind(s1 => if (r.slip._1 == "pct") needLe(s1, fee, tdiv(dmul(value, r.slip._2), 100)) else if (r.slip._1 == "abs") needLe(s1, fee, r.slip._2) else begin(s1))
        .upd(s1 => feesReferral(s1, a, fee))
        .bind(s1 => trySetStatus(s1, a, r.act, ACTIVE).tell(s2 => [event("Activated", [], [a].concat(changed(s1, s2, a, r.act)), [])]))
        .bind(s1 => trySetStatus(s1, a, r.can, CANCELLED).tell(s2 => [event("Cancelled", [], [a].concat(changed(s1, s2, a, r.can)), [])]))
        .bind(s1 => poolIntegrity(s1, s1.pool.skew - s0.pool.skew))
        .tell(s1 => {
          val f = if (sa.accts[a].pos.keys().contains(p)) -fundingOwed(updatePair(sa, p).s, sa.accts[a], p) else 0
          [event("MarginOrder", [p, r.plim._1], [a], [pr, if (r.plim._1 == "none") 0 else r.plim._2, shut, open, c.pnl + f, f].concat(feeParts4(s1, a, fee)))]
        })
        .tell(s1 => pairEvents(s1, Set(p)))
    })
  }
  pure def processReq(s: State, a: int, n: int, px: Px): Tx =
    need(s, hasAcct(s, a) and n >= s.accts[a].vrs and hasReq(s.accts[a], n)).bind(s0 => {
      val r = s0.accts[a].reqs[n]
      val expired = s0.now >= r.exp
      val ids = s0.accts[a].pos.keys().union(if (r.kind == "order") Set(r.pair) else Set())
      need(s0, (if (expired) pending(r) else r.status == ACTIVE) and s0.now > r.sub and hasCfg(s0, ids))
        .upd(s1 => setStatus(s1, a, n, if (expired) EXPIRED else EXECUTED))
        .bind(s1 => if (expired) begin(s1) else
          readPrices(s1, pairAges(s1, ids), px).bind(s2 => if (r.kind == "order") executeOrder(s2, a, r) else removeCollateral(s2, a, r)))
        .upd(s1 => reward(s1))
    })

  pure def checkOrder(s: State, pair: str, amt: int): Tx =
    need(s, hasCfg(s, Set(pair))).chk(s1 => abs(amt) >= s1.pcfg.get(pair).trade_size_min)

  // ---- Liquidation, deleveraging, debt ----
  pure def liquidate(s: State, a: int, amount: int, pres: str, px: Px): Tx =
    need(s, hasAcct(s, a)).bind(s0 => pay(s0, pres, amount)).bind(s0 => {
      val ids = s0.accts[a].pos.keys()
      need(s0, hasCfg(s0, ids)).bind(s1 => readPrices(s1, pairAges(s1, ids), px)).chk(s1 => pres == "BASE").bind(s1 => {
        val s2 = pairsIn(ids).foldl(s1, (t, p) => updatePair(t, p).s)
        val x = s2.accts[a]
        val vp = valuePositions(s2, x, true)
        val vc = valueCollateral(s2, x)
        needLt(s2, vp.pnl + vc.value + x.vb, vp.margin + vc.margin)
          .bind(s3 => needLe(s3, vc.value, amount))
          .upd(s3 => {
            val s4 = pairsIn(ids).foldl(s3, (t, p) => {
              val o = x.pos.get(p)
              val q = pairOf(t, p)
              val q1 = if (o.amt > 0) { ...q, oiL: q.oiL - o.amt, cost: q.cost - o.cost } else { ...q, oiS: q.oiS + o.amt, cost: q.cost - o.cost }
              t.setPair(p, q1).setPos(a, p, zeroPos).snap(p)
            })
            val s5 = { ...s4, pool: { ...s4.pool, unreal: s4.pool.unreal - vp.funding } }
            val s6 = configuredColl(s5, x).foldl(s5, (t, r) => t.takeColl(a, r, x.coll.get(r)).give(r, x.coll.get(r)))
            val s7 = s6.poolTokens(vc.value).give("BASE", dmax(amount, 0) - vc.value).settle(a, vp.pnl + vc.value)
            val s8 = if (s7.accts[a].vb < 0) s7.settle(a, -s7.accts[a].vb) else s7
            val s9 = feesReferral(s8, a, vp.fee)
            val y = s9.accts[a]
            s9.setAcct(a, { ...y, vrs: length(y.reqs), active: Set() }).reward()
          })
          .tell(s3 => {
            val after = x.vb + vp.pnl + vc.value
            val gross = sum(configuredColl(s2, x).foldl([], (l, r) => l.append(dmul(x.coll.get(r), price(s2, s2.ccfg.get(r).pair_id)))))
            [event("ValidRequestsStart", [], [a, length(x.reqs)], []),
             event("Liquidate", [], [a], [vp.pnl + vc.value + x.vb, vp.margin + vc.margin, x.vb, vp.pnl, gross, vc.value, -vp.funding]
               .concat(feeParts4(s2, a, vp.fee)).append(dmin(after, 0)))]
              .concat(pairsIn(ids).foldl([], (l, p) => l.append(event("LiquidatePosition", [p], [a], [price(s2, p), x.pos.get(p).amt]))))
              .concat(configuredColl(s2, x).foldl([], (l, r) => l.append(event("LiquidateCollateral", [r], [a], [price(s2, s2.ccfg.get(r).pair_id), x.coll.get(r)]))))
          })
          .tell(s3 => pairEvents(s3, ids))
      })
    })

  pure def deleverage(s: State, a: int, p: str, px: Px): Tx =
    need(s, hasAcct(s, a)).bind(s0 => {
      val ids = s0.accts[a].pos.keys().union(Set(p))
      need(s0, hasCfg(s0, ids)).bind(s1 => readPrices(s1, pairAges(s1, ids), px)).bind(s1 => {
        val s2 = settleFunding(updatePair(s1, p).s, a, p)
        val r0 = skewRatio(s2)
        val o = posOf(s2.accts[a], p)
        needLt(s2, s2.cfg.skew_ratio_cap, r0)
          .chk(s3 => o.amt != 0 and o.cost != 0 and s3.cfg.adl_a != 0)
          .bind(s3 => {
            val gain = ddiv(dmul(o.amt, price(s3, p)) - o.cost, abs(o.cost))
            val u = ddiv(r0, s3.cfg.adl_a) - ddiv(s3.cfg.adl_offset, s3.cfg.adl_a)
            val threshold = -dmul(dmul(u, u), u) - dmul(s3.cfg.adl_b, u)
            needLt(s3, threshold, gain).bind(s4 => {
              val c = closePosition(s4, a, p, -o.amt)
              val s5 = feesReferral(c.s, a, c.fee)
              val before = updatePair(s1, p).s
              val f = if (before.accts[a].pos.keys().contains(p)) -fundingOwed(before, before.accts[a], p) else 0
              { ...needLt(s5, skewRatio(s5), r0), near: close(skewRatio(s5), r0) and not(sameRatio(s5, s2)) }.tell(s6 =>
                [event("AutoDeleverage", [p], [a], [price(s6, p), -o.amt, c.pnl + f, f].concat(feeParts4(s6, a, c.fee)).concat([gain, threshold]))])
            })
          })
          .upd(s3 => reward(s3))
          .tell(s3 => pairEvents(s3, Set(p)))
      })
    })

  pure def swapDebt(s: State, a: int, res: str, amount: int, pres: str, px: Px): Tx =
    pay(s, pres, amount).chk(s0 => hasAcct(s0, a)).bind(s0 => readPrices(s0, Map(), px))
      .chk(s1 => pres == "BASE" and s1.ccfg.keys().contains(res) and s1.accts[a].vb < 0 and s1.accts[a].coll.keys().contains(res))
      .bind(s1 => {
        val c = s1.ccfg.get(res)
        val x = s1.accts[a]
        val paid = dmax(amount, 0)
        val pr = dmul(price(s1, c.pair_id), dmul(c.discount, frac(1, 1)) + frac(9, 1))
        val v0 = dmin(paid, -x.vb)
        val have = x.coll.get(res)
        val want = if (pr == 0) 0 else ddiv(v0, pr)
        val amt = if (want > have) have else want
        val value = if (want > have) dmul(have, pr) else v0
        val out = roundDown(amt, unitOf(res))
        need(s1, pr != 0).upd(s2 => s2.poolTokens(value).give("BASE", paid - value).settle(a, value).takeColl(a, res, out).give(res, out))
          .tell(s2 => [event("SwapDebt", [res], [a], [out, pr])])
      })

  // ---- Liquidity ----
  pure def addLiquidity(s: State, amount: int): Tx = {
    val v = dmax(amount, 0)
    val fee = dmul(v, s.cfg.fee_liquidity_add)
    val supply = s.supply.get("LP")
    val pv = dmax(poolValue(s), ONE)
    val pr = if (supply == 0) ONE else ddiv(pv, supply)
    val lp = if (supply == 0) v - fee else ddiv(v - fee, pr)
    need(s, pr != 0 and lp >= 0).upd(s1 => {
      feesBasic(s1.poolTokens(v).give("LP", lp).mint("LP", lp), fee)
    }).tell(s1 => [event("LiquidityChange", [], [], [pr, lp, v].concat(feeParts(s1, fee)))])
  }
  pure def removeLiquidity(s: State, lp: int): Tx = need(s, s.supply.get("LP") != 0).bind(s0 => {
    val v = dmul(dmax(lp, 0), ddiv(dmax(poolValue(s0), 0), s0.supply.get("LP")))
    val fee = dmul(v, s0.cfg.fee_liquidity_remove)
    val w = v - fee
    needLe(s0, w, s0.pool.tokens).chk(s1 => w >= 0)
      .upd(s1 => feesBasic(s1.mint("LP", -dmax(lp, 0)).poolTokens(-w).give("BASE", w), fee))
      .bind(s1 => poolIntegrity(s1, 0))
      .tell(s1 => [event("LiquidityChange", [], [], [ddiv(dmax(poolValue(s0), 0), s0.supply.get("LP")), -dmax(lp, 0), -w].concat(feeParts(s1, fee)))])
  })
  // Pays an accrued balance out of the pool.
  pure def payout(s: State, amount: int): Tx =
    needLe(s, amount, s.pool.tokens).upd(s1 => s1.poolVb(amount).poolTokens(-amount).give("BASE", amount))

  // ---- Configuration ----
  pure def between(x: int, lo: int, hi: int): bool = lo <= x and x <= hi
  pure def validX(c: CfgX): bool = and {
    c.positions_max > 0, c.skew_ratio_cap >= 0, c.adl_offset >= 0, c.adl_a >= 0, c.adl_b >= 0,
    c.fee_liquidity_add >= 0, c.fee_liquidity_remove >= 0,
    between(c.fee_share_protocol, 0, frac(3, 1)), between(c.fee_share_treasury, 0, frac(15, 2)), between(c.fee_share_referral, 0, ONE),
    c.fee_max >= 0, c.protocol_burn_amount >= i(1000), c.reward_keeper >= 0,
  }
  pure def amountsX(c: CfgX): List[int] = [c.skew_ratio_cap, c.adl_offset, c.adl_a, c.adl_b, c.fee_liquidity_add, c.fee_liquidity_remove,
    c.fee_share_protocol, c.fee_share_treasury, c.fee_share_referral, c.fee_max, c.protocol_burn_amount, c.reward_keeper]
  pure def storableX(c: CfgX): bool = amountsX(c).foldl(true, (a, v) => a and dfloat(v).ok)
  pure def storedX(c: CfgX): CfgX = { ...c,
    skew_ratio_cap: dfloat(c.skew_ratio_cap).v, adl_offset: dfloat(c.adl_offset).v, adl_a: dfloat(c.adl_a).v, adl_b: dfloat(c.adl_b).v,
    fee_liquidity_add: dfloat(c.fee_liquidity_add).v, fee_liquidity_remove: dfloat(c.fee_liquidity_remove).v,
    fee_share_protocol: dfloat(c.fee_share_protocol).v, fee_share_treasury: dfloat(c.fee_share_treasury).v,
    fee_share_referral: dfloat(c.fee_share_referral).v, fee_max: dfloat(c.fee_max).v,
    protocol_burn_amount: dfloat(c.protocol_burn_amount).v, reward_keeper: dfloat(c.reward_keeper).v }
  pure def validP(c: CfgP): bool = and {
    between(c.price_age_max, 1, 65535), c.oi_max >= 0, c.trade_size_min >= 0, c.update_price_delta_ratio > 0,
    between(c.update_period_seconds, 1, 65535), between(c.margin_initial, 0, ONE), between(c.margin_maintenance, 0, ONE),
    c.margin_maintenance <= c.margin_initial, between(c.funding_1, 0, i(2)), between(c.funding_2, 0, i(4)),
    between(c.funding_2_delta, 0, i(10000)), c.funding_2_decay >= 0, between(c.funding_pool_0, 0, ONE),
    between(c.funding_pool_1, 0, i(2)), between(c.funding_share, 0, frac(1, 1)), between(c.fee_0, 0, frac(15, 3)),
    between(c.fee_1, 0, frac(1, 6)),
  }
  pure def amountsP(c: CfgP): List[int] = [c.oi_max, c.trade_size_min, c.update_price_delta_ratio, c.margin_initial, c.margin_maintenance,
    c.funding_1, c.funding_2, c.funding_2_delta, c.funding_2_decay, c.funding_pool_0, c.funding_pool_1, c.funding_share, c.fee_0, c.fee_1]
  pure def storableP(c: CfgP): bool = amountsP(c).foldl(true, (a, v) => a and dfloat(v).ok)
  pure def storedP(c: CfgP): CfgP = { ...c,
    oi_max: dfloat(c.oi_max).v, trade_size_min: dfloat(c.trade_size_min).v, update_price_delta_ratio: dfloat(c.update_price_delta_ratio).v,
    margin_initial: dfloat(c.margin_initial).v, margin_maintenance: dfloat(c.margin_maintenance).v,
    funding_1: dfloat(c.funding_1).v, funding_2: dfloat(c.funding_2).v, funding_2_delta: dfloat(c.funding_2_delta).v,
    funding_2_decay: dfloat(c.funding_2_decay).v, funding_pool_0: dfloat(c.funding_pool_0).v, funding_pool_1: dfloat(c.funding_pool_1).v,
    funding_share: dfloat(c.funding_share).v, fee_0: dfloat(c.fee_0).v, fee_1: dfloat(c.fee_1).v }
  pure def validC(c: CfgC): bool = and {
    between(c.price_age_max, 1, 65535), between(c.discount, frac(8, 1), ONE), between(c.margin, 0, frac(1, 1)),
  }
  pure def storedC(c: CfgC): CfgC = { ...c, discount: dfloat(c.discount).v, margin: dfloat(c.margin).v }

  // ---- Referrals ----
  pure def totals(claims: Tokens, count: int): str -> int = claims.foldl(Map(), (m, c) => addTo(m, c._1, c._2 * count))
  pure def allowedTokens(s: State, ts: Tokens): bool = ts.indices().forall(k => ts[k]._1 == "BASE" or s.ccfg.keys().contains(ts[k]._1))
  // Puts the promised totals into the referral vaults out of the tokens sent along.
  pure def fundClaims(s: State, ts: Tokens, total: str -> int): Tx = {
    val sent = ts.foldl(Map(), (m, x) => addTo(m, x._1, dmax(x._2, 0)))
    need(s, total.keys().forall(r => total.get(r) <= amountOf(sent, r)))
      .upd(s1 => total.keys().fold(s1, (s2, r) => {
        val v = roundUp(total.get(r), unitOf(r))
        { ...s2.give(r, -v), refvault: addTo(s2.refvault, r, v) }
      }))
  }
  pure def hasRef(s: State, r: int): bool = r >= 0 and r < length(s.refs)
  pure def setRef(s: State, r: int, x: Referral): State = { ...s, refs: s.refs.replaceAt(r, x) }
  pure def grant(s: State, r: int, count: int): Tx = {
    val x = s.refs[r]
    need(s, x.n + count <= x.max).upd(s1 => s1.setRef(r, { ...x, n: x.n + count }))
  }
  pure def positive(claims: Tokens): bool = claims.indices().forall(k => claims[k]._2 > 0)
  pure def addAllocation(s: State, r: int, ts: Tokens, claims: Tokens, count: int): Tx =
    payAll(s, ts).chk(s1 => hasRef(s1, r) and allowedTokens(s1, ts) and positive(claims))
      // the tokens are checked as paid and what is not used is returned
      .bind(s1 => grant(ts.foldl(s1, (t, x) => t.give(x._1, dmax(x._2, 0))), r, count))
      .bind(s1 => fundClaims(s1, ts, totals(claims, count)))
      .bind(s1 => {
        val x = s1.refs[r]
        begin(s1.setRef(r, { ...x, allocs: x.allocs.append({ claims: claims, n: 0, max: count }) })).ret([length(x.allocs)])
      })
  pure def rateOk(v: int): bool = between(v, 0, frac(1, 1))
  pure def newRef(fr: int, fb: int, mx: int): Referral = { fee_referral: fr, fee_rebate: fb, n: 0, max: mx, balance: 0, total: 0, allocs: [] }
  pure def opt(l: List[int], d: int): int = if (length(l) > 0) l[0] else d
  pure def addCode(s: State, k: str, c: Code): Tx = need(s, not(s.codes.keys().contains(k))).upd(s1 => { ...s1, codes: s1.codes.put(k, c) })

  // ---- Direct access to protected methods ----
  pure val authorityMethods = Set(
    ("A0", "update"), ("A0", "update_referral_id"), ("A0", "deposit_collateral_batch"), ("A0", "withdraw_collateral_batch"),
    ("POOL", "update"), ("POOL", "deposit"), ("POOL", "withdraw"),
    ("CONFIG", "update_exchange_config"), ("CONFIG", "update_pair_configs"), ("CONFIG", "update_collateral_configs"), ("CONFIG", "remove_collateral_config"),
    ("FEE_DISTRIBUTOR", "update_protocol_virtual_balance"), ("FEE_DISTRIBUTOR", "update_treasury_virtual_balance"), ("FEE_DISTRIBUTOR", "distribute"),
    ("FEE_DELEGATOR", "update_virtual_balance"), ("PERMISSION_REGISTRY", "set_permissions"),
    ("REFERRAL_GENERATOR", "add_allocation"), ("REFERRAL_GENERATOR", "create_referral_codes"),
    ("REFERRAL_GENERATOR", "create_referral_codes_from_allocation"), ("REFERRAL_GENERATOR", "claim_referral_code"),
    ("ORACLE", "push_and_get_prices_with_auth"), ("ORACLE", "get_prices_with_auth"))
  pure val ownerMethods = Set(
    ("FEE_DELEGATOR", "update_max_lock"), ("FEE_DELEGATOR", "update_price_multiplier"), ("FEE_DELEGATOR", "update_is_contingent"),
    ("FEE_DELEGATOR", "deposit"), ("FEE_DELEGATOR", "withdraw"),
    ("ORACLE", "add_key"), ("ORACLE", "remove_key"), ("ORACLE", "remove_price"),
    ("TOKEN_WRAPPER", "deposit_authority"), ("TOKEN_WRAPPER", "withdraw_authority"), ("TOKEN_WRAPPER", "add_input"), ("TOKEN_WRAPPER", "update_wrappable"),
    ("ENV_REGISTRY", "set_variables"), ("ENV_REGISTRY", "remove_variables"),
    ("EXCHANGE", "deposit_authority"), ("EXCHANGE", "withdraw_authority"), ("EXCHANGE", "signal_upgrade"), ("EXCHANGE", "update_exchange_config"),
    ("EXCHANGE", "update_pair_configs"), ("EXCHANGE", "update_collateral_configs"), ("EXCHANGE", "remove_collateral_config"))
  pure val openMethods = Set(
    ("FEE_DELEGATOR", "lock_fee"), ("ORACLE", "push_and_get_prices"), ("ORACLE", "get_prices"),
    ("TOKEN_WRAPPER", "wrap"), ("TOKEN_WRAPPER", "unwrap"), ("TOKEN_WRAPPER", "flash_loan"), ("TOKEN_WRAPPER", "repay_flash_loan"))
  pure val roleMethods: str -> str = Map(
    "collect_treasury" -> "treasury_admin", "collect_fee_delegator" -> "fee_delegator_admin",
    "mint_referral" -> "referral_admin", "mint_referral_with_allocation" -> "referral_admin",
    "update_referral" -> "referral_admin", "add_referral_allocation" -> "referral_admin",
    "swap_protocol_fee" -> "protocol_swap_user", "add_liquidity" -> "liquidity_user", "remove_liquidity" -> "liquidity_user",
    "create_referral_codes" -> "referral_user", "create_referral_codes_from_allocation" -> "referral_user", "collect_referral_rewards" -> "referral_user",
    "create_account" -> "account_creation_user", "create_recovery_key" -> "account_management_user", "add_auth_rule" -> "account_management_user",
    "set_level_1_auth" -> "account_management_user", "set_level_2_auth" -> "account_management_user", "set_level_3_auth" -> "account_management_user",
    "add_collateral" -> "account_management_user", "remove_collateral_request" -> "remove_collateral_request_user",
    "margin_order_request" -> "margin_order_request_user", "margin_order_tp_sl_request" -> "margin_order_request_user",
    "cancel_requests" -> "cancel_request_user", "process_request" -> "keeper_process", "swap_debt" -> "keeper_swap_debt",
    "liquidate" -> "keeper_liquidate", "auto_deleverage" -> "keeper_auto_deleverage", "update_pairs" -> "keeper_update_pairs")
  pure val gates: Set[(str, str)] = authorityMethods.union(ownerMethods).union(openMethods).union(roleMethods.keys().map(m => ("EXCHANGE", m)))
  pure def refused(s: State, comp: str, method: str): bool =
    if (authorityMethods.contains((comp, method))) not(s.sig.contains("AUTH"))
    else if (ownerMethods.contains((comp, method))) not(s.sig.contains("D"))
    else if (openMethods.contains((comp, method))) false
    else not(ruleSat(s.roles.get(roleMethods.get(method)), s.sig))

  // ---- All operations ----
  // What the faucet can mint: its own tokens, in amounts they can represent.
  pure def dispensable(res: str, v: int): bool = Set("FBTC", "FETH", "FUSDC", "FUSDT").contains(res) and v >= 0 and v % unitOf(res) == 0
  pure def perform(s: State, op: Op): Tx = match op {
    | Noop => begin(s)
    | Push(o) => need(s, pushValid(s, o.px)).upd(s1 => pushPrices(s1, o.px.prices))
        .chk(s1 => o.want.indices().forall(k => s1.prices.keys().contains(o.want[k])))
    | GetPrices(o) => need(s, o.want.indices().forall(k => s.prices.keys().contains(o.want[k])))
    | AddLiq(o) => role(s, "liquidity_user").bind(s1 => pay(s1, o.res, o.amount)).chk(s1 => o.res == "BASE").bind(s1 => addLiquidity(s1, o.amount))
    | RemoveLiq(o) => role(s, "liquidity_user").bind(s1 => pay(s1, o.res, o.amount)).chk(s1 => o.res == "LP").bind(s1 => removeLiquidity(s1, o.amount))
    | CreateAccount(o) =>
        role(s, "account_creation_user").bind(s1 => lockOath(s1, o.oath)).bind(s1 => payAll(s1, o.tokens))
          .chk(s1 => o.code == "" or (s1.codes.keys().contains(o.code) and s1.codes.get(o.code).n < s1.codes.get(o.code).max))
          .bind(s1 => {
            val a = length(s1.accts)
            val r = toRule(o.rule)
            val coded = o.code != ""
            val c: Code = if (coded) s1.codes.get(o.code) else { ref: -1, claims: [], n: 0, max: 0 }
            val gift = c.claims.foldl([], (l, x) => l.append((x._1, roundDown(x._2, unitOf(x._1)))))
            val s2 = if (coded) gift.foldl({ ...s1, codes: s1.codes.put(o.code, { ...c, n: c.n + 1 }) }, (t, x) => { ...t, refvault: addTo(t.refvault, x._1, -x._2) }) else s1
            val acct: Acct = { vb: 0, pos: Map(), coll: Map(), reqs: [], active: Set(), vrs: 0, ref: c.ref, roles: [r, r, r] }
            val s3 = { ...s2, accts: s2.accts.append(acct) }.enlist(r, a, 1).enlist(r, a, 2).enlist(r, a, 3)
            addCollateral(s3, a, o.tokens.foldl([], (l, x) => l.append((x._1, dmax(x._2, 0)))).concat(gift))
              .chk(s4 => s4.refvault.keys().forall(k => s4.refvault.get(k) >= 0))
              .bind(s4 => chargeOath(s4, a, o.oath, Set()))
              .tell(s4 => [event("AccountCreation", [], [a, c.ref], [])])
          })
    | AddColl(o) =>
        role(s, "account_management_user").bind(s1 => lockOath(s1, o.oath)).bind(s1 => payAll(s1, o.tokens))
          .bind(s1 => level(s1, o.acct, 3))
          .bind(s1 => addCollateral(s1, o.acct, o.tokens.foldl([], (l, x) => l.append((x._1, dmax(x._2, 0))))))
          .bind(s1 => chargeOath(s1, o.acct, o.oath, Set()))
    | RemoveReq(o) =>
        role(s, "remove_collateral_request_user").bind(s1 => lockOath(s1, o.oath)).bind(s1 => level(s1, o.acct, 2))
          .bind(s1 => chargeOath(s1, o.acct, o.oath, Set()))
          .chk(s1 => length(o.claims) <= 10)
          .bind(s1 => pushReq(s1, o.acct, { ...noReq, kind: "remove", claims: o.claims, target: o.target }, 0, o.expiry))
          .bind(s1 => requestLimit(s1, o.acct)).bind(s1 => begin(s1).ret([length(s1.accts[o.acct].reqs) - 1]))
    | Order(o) =>
        role(s, "margin_order_request_user").bind(s1 => lockOath(s1, o.oath)).bind(s1 => level(s1, o.acct, 3))
          .bind(s1 => chargeOath(s1, o.acct, o.oath, Set(o.pair)))
          .bind(s1 => checkOrder(s1, o.pair, o.amt))
          .chk(s1 => length(o.act) <= 2 and length(o.can) <= 2)
          .bind(s1 => {
            val at = length(s1.accts[o.acct].reqs)
            val r = { ...noReq, pair: o.pair, amt: o.amt, reduce: o.reduce, plim: o.plim, slip: o.slip, status: o.status,
              act: o.act.foldl([], (l, x) => l.append(resolve(x, at))), can: o.can.foldl([], (l, x) => l.append(resolve(x, at))) }
            pushReq(s1, o.acct, r, o.delay, o.expiry).bind(s2 => requestLimit(s2, o.acct)).ret([at])
          })
    | Tpsl(o) =>
        role(s, "margin_order_request_user").bind(s1 => lockOath(s1, o.oath)).bind(s1 => level(s1, o.acct, 3))
          .bind(s1 => chargeOath(s1, o.acct, o.oath, Set(o.pair)))
          .bind(s1 => checkOrder(s1, o.pair, o.amt))
          .bind(s1 => {
            val at = length(s1.accts[o.acct].reqs)
            val hasTp = length(o.tp) > 0
            val hasSl = length(o.sl) > 0
            val tpIx = if (hasTp) [at + 1] else []
            val slIx = if (hasSl) [if (hasTp) at + 2 else at + 1] else []
            val up = o.amt > 0
            val main = { ...noReq, pair: o.pair, amt: o.amt, reduce: o.reduce, plim: o.plim, slip: o.slip, act: tpIx.concat(slIx), status: ACTIVE }
            val exit = { ...noReq, pair: o.pair, amt: -o.amt, reduce: true, slip: o.slip, status: DORMANT }
            pushReq(s1, o.acct, main, o.delay, o.expiry)
              .bind(s2 => if (hasTp) pushReq(s2, o.acct, { ...exit, plim: (if (up) "gte" else "lte", o.tp[0]), can: slIx }, o.delay, o.expiry) else begin(s2))
              .bind(s2 => if (hasSl) pushReq(s2, o.acct, { ...exit, plim: (if (up) "lte" else "gte", o.sl[0]), can: tpIx }, o.delay, o.expiry) else begin(s2))
              .bind(s2 => requestLimit(s2, o.acct))
              .ret([at, opt(tpIx, -1), opt(slIx, -1)])
          })
    | Cancel(o) =>
        role(s, "cancel_request_user").bind(s1 => lockOath(s1, o.oath)).bind(s1 => level(s1, o.acct, 3))
          .bind(s1 => chargeOath(s1, o.acct, o.oath, Set()))
          .chk(s1 => o.indexes.indices().forall(k => hasReq(s1.accts[o.acct], o.indexes[k]) and pending(s1.accts[o.acct].reqs[o.indexes[k]])))
          .upd(s1 => o.indexes.foldl(s1, (t, n) => setStatus(t, o.acct, n, CANCELLED)))
    | Process(o) => role(s, "keeper_process").bind(s1 => processReq(s1, o.acct, o.index, o.px))
    | SwapDebt(o) => role(s, "keeper_swap_debt").bind(s1 => swapDebt(s1, o.acct, o.res, o.amount, o.pres, o.px))
    | Liquidate(o) => role(s, "keeper_liquidate").bind(s1 => liquidate(s1, o.acct, o.amount, o.pres, o.px))
    | Adl(o) => role(s, "keeper_auto_deleverage").bind(s1 => deleverage(s1, o.acct, o.pair, o.px))
    | UpdatePairs(o) => role(s, "keeper_update_pairs").chk(s1 => hasCfg(s1, toSet(o.pairs)))
        .bind(s1 => readPrices(s1, pairAges(s1, toSet(o.pairs)), o.px))
        .bind(s1 => {
          val r = pairsIn(toSet(o.pairs)).foldl({ s: s1, n: 0, near: false }, (acc, p) => {
            val u = updatePair(acc.s, p)
            { s: u.s, n: if (u.flag) acc.n + 1 else acc.n, near: acc.near or u.near }
          })
          begin(r.s.give("KEEP", i(r.n)).mint("KEEP", i(r.n))).ret([r.n]).andNear(r.near).tell(s2 => pairEvents(s2, toSet(o.pairs)))
        })
    | SetAuth(o) => role(s, "account_management_user").bind(s1 => lockOath(s1, o.oath)).bind(s1 => level(s1, o.acct, 1))
        .bind(s1 => chargeOath(s1, o.acct, o.oath, Set())).upd(s1 => setLevel(s1, o.acct, o.level, toRule(o.rule)))
    | AddRule(o) => role(s, "account_management_user").bind(s1 => lockOath(s1, o.oath)).bind(s1 => level(s1, o.acct, 1))
        .bind(s1 => chargeOath(s1, o.acct, o.oath, Set())).chk(s1 => o.level >= 1 and o.level <= 3)
        .upd(s1 => setLevel(s1, o.acct, o.level, extend(s1.accts[o.acct].roles[o.level - 1], o.rule)))
    | Recovery(o) => role(s, "account_management_user").bind(s1 => lockOath(s1, o.oath)).bind(s1 => level(s1, o.acct, 1))
        .bind(s1 => chargeOath(s1, o.acct, o.oath, Set()))
        .upd(s1 => { ...setLevel(s1, o.acct, 1, extend(s1.accts[o.acct].roles[0], recoveryKey(s1.rkeys))), rkeys: s1.rkeys + 1 })
    | ExCfg(o) => owner(s).chk(s1 => s1.exauth > 0 and validX(o.cfg) and storableX(o.cfg)).upd(s1 => { ...s1, cfg: storedX(o.cfg) })
        .tell(s1 => [event("ExchangeConfig", [], [o.cfg.positions_max, o.cfg.collaterals_max, o.cfg.active_requests_max], amountsX(o.cfg))])
    | PairCfg(o) => owner(s).chk(s1 => s1.exauth > 0 and o.cfgs.indices().forall(k => validP(o.cfgs[k]) and storableP(o.cfgs[k])))
        .upd(s1 => o.cfgs.foldl(s1, (t, c) => { ...t, pcfg: t.pcfg.put(c.pair_id, storedP(c)),
          plist: if (t.pcfg.keys().contains(c.pair_id)) t.plist else t.plist.append(c.pair_id) }))
        .tell(s1 => o.cfgs.foldl([], (l, c) => l.append(event("PairConfig", [c.pair_id], [length(l), c.price_age_max, c.update_period_seconds], amountsP(c)))))
    | CollCfg(o) => owner(s).chk(s1 => s1.exauth > 0 and o.cfgs.indices().forall(k => validC(o.cfgs[k])))
        .upd(s1 => o.cfgs.foldl(s1, (t, c) => { ...t, ccfg: t.ccfg.put(c.res, storedC(c)) }))
        .tell(s1 => o.cfgs.foldl([], (l, c) => l.append(event("CollateralConfig", [c.res, c.pair_id], [length(l), c.price_age_max], [c.discount, c.margin]))))
    | CollRm(o) => owner(s).chk(s1 => s1.exauth > 0).upd(s1 => { ...s1, ccfg: without(s1.ccfg, o.res) })
        .tell(s1 => [event("CollateralConfigRemoval", [o.res], [], [])])
    | EnvSet(o) => owner(s).upd(s1 => { ...s1, env: o.vars.foldl(s1.env, (m, x) => m.put(x._1, x._2)) })
    | EnvRm(o) => owner(s).upd(s1 => { ...s1, env: o.keys.foldl(s1.env, (m, k) => m.keys().exclude(Set(k)).mapBy(x => m.get(x))) })
    | FaucetAmount(o) => need(s, o.badge).upd(s1 => { ...s1, faucet: { ...s1.faucet, amounts: s1.faucet.amounts.put(o.res, o.amount) } })
    | FaucetMint(o) => need(s, o.badge and dispensable(o.res, o.amount)).upd(s1 => s1.give(o.res, o.amount).mint(o.res, o.amount))
    | FaucetUser(o) => need(s, o.badge).upd(s1 => { ...s1, faucet: { ...s1.faucet, user: toRule(o.rule) } })
    | FaucetFree => {
        val l = s.faucet.amounts.keys().filter(r => s.faucet.amounts.get(r) > 0)
        need(s, ruleSat(s.faucet.user, s.sig) and l.forall(r => dispensable(r, s.faucet.amounts.get(r))))
          .upd(s1 => l.fold(s1, (t, r) => t.give(r, t.faucet.amounts.get(r)).mint(r, t.faucet.amounts.get(r))))
      }
    | SignalUpgrade(o) => owner(s).tell(s1 => [event("SignalUpgrade", [o.comp], [], [])])
    | CollectTreasury => role(s, "treasury_admin").bind(s1 => payout(s1, s1.treas)).upd(s1 => { ...s1, treas: 0 })
    | CollectFeeDelegator => role(s, "fee_delegator_admin").bind(s1 => payout(s1, s1.fd.vb)).upd(s1 => { ...s1, fd: { ...s1.fd, vb: 0 } })
    | SwapProtocol(o) => role(s, "protocol_swap_user").bind(s1 => pay(s1, o.res, o.amount))
        .chk(s1 => o.res == "PROT" and dmax(o.amount, 0) >= s1.cfg.protocol_burn_amount)
        .upd(s1 => s1.give("PROT", o.amount - s1.cfg.protocol_burn_amount).mint("PROT", -s1.cfg.protocol_burn_amount))
        .bind(s1 => payout(s1, s1.prot)).upd(s1 => { ...s1, prot: 0 })
    | MintRef(o) => role(s, "referral_admin").chk(s1 => rateOk(o.fee_referral) and rateOk(o.fee_rebate))
        .upd(s1 => { ...s1, refs: s1.refs.append(newRef(o.fee_referral, o.fee_rebate, o.max)) })
    | MintRefAlloc(o) => role(s, "referral_admin").chk(s1 => rateOk(o.fee_referral) and rateOk(o.fee_rebate))
        .upd(s1 => { ...s1, refs: s1.refs.append(newRef(o.fee_referral, o.fee_rebate, o.max)) })
        .bind(s1 => addAllocation(s1, length(s1.refs) - 1, o.tokens, o.alloc, o.count))
    | UpdateRef(o) => role(s, "referral_admin")
        .chk(s1 => hasRef(s1, o.ref) and (length(o.fee_referral) == 0 or rateOk(o.fee_referral[0])) and (length(o.fee_rebate) == 0 or rateOk(o.fee_rebate[0])))
        .upd(s1 => {
          val x = s1.refs[o.ref]
          s1.setRef(o.ref, { ...x, fee_referral: opt(o.fee_referral, x.fee_referral), fee_rebate: opt(o.fee_rebate, x.fee_rebate), max: opt(o.max, x.max) })
        })
    | AddAlloc(o) => role(s, "referral_admin").bind(s1 => addAllocation(s1, o.ref, o.tokens, o.claims, o.count))
    | CreateCodes(o) => role(s, "referral_user").bind(s1 => payAll(s1, o.tokens))
        .chk(s1 => o.fake == "" and hasRef(s1, o.ref) and allowedTokens(s1, o.tokens))
        .chk(s1 => o.codes.indices().forall(k => if (o.codes[k]._3 == 1) positive(o.codes[k]._2) else length(o.codes[k]._2) == 0))
        .bind(s1 => grant(o.tokens.foldl(s1, (t, x) => t.give(x._1, dmax(x._2, 0))), o.ref, sum(o.codes.foldl([], (l, c) => l.append(c._3)))))
        .bind(s1 => fundClaims(s1, o.tokens, o.codes.foldl(Map(), (m, c) => c._2.foldl(m, (m2, x) => addTo(m2, x._1, x._2)))))
        .bind(s1 => o.codes.foldl(begin(s1), (t, c) => t.bind(s2 => addCode(s2, c._1, { ref: o.ref, claims: c._2, n: 0, max: c._3 }))))
    | CodesFromAlloc(o) => role(s, "referral_user")
        .chk(s1 => o.fake == "" and hasRef(s1, o.ref)).chk(s1 => o.alloc >= 0 and o.alloc < length(s1.refs[o.ref].allocs))
        .bind(s1 => {
          val x = s1.refs[o.ref]
          val al = x.allocs[o.alloc]
          val names = toSet(o.codes)
          need(s1, al.n + names.size() <= al.max)
            .upd(s2 => s2.setRef(o.ref, { ...x, allocs: x.allocs.replaceAt(o.alloc, { ...al, n: al.n + names.size() }) }))
            .bind(s2 => names.fold(begin(s2), (t, c) => t.bind(s3 => addCode(s3, c, { ref: o.ref, claims: al.claims, n: 0, max: 1 }))))
        })
    | CollectRef(o) => role(s, "referral_user").chk(s1 => o.fake == "" and hasRef(s1, o.ref))
        .bind(s1 => payout(s1, s1.refs[o.ref].balance)).upd(s1 => s1.setRef(o.ref, { ...s1.refs[o.ref], balance: 0 }))
    | FdCfg(o) => if (length(o.max_lock) == 0 and length(o.mult) == 0 and length(o.cont) == 0) begin(s) else owner(s).chk(s1 => opt(o.max_lock, 0) >= 0 and opt(o.mult, 0) >= 0)
        .upd(s1 => { ...s1, fd: { ...s1.fd, max_lock: opt(o.max_lock, s1.fd.max_lock), mult: opt(o.mult, s1.fd.mult),
          cont: if (length(o.cont) > 0) o.cont[0] else s1.fd.cont } })
    | FdWithdraw(o) => owner(s).chk(s1 => o.amount >= 0).bind(s1 => haveXrd(s1, o.amount))
        .upd(s1 => { ...s1, fd: { ...s1.fd, xrd: s1.fd.xrd - o.amount } })
    | FdDeposit(o) => owner(s).upd(s1 => { ...s1, fd: { ...s1.fd, xrd: s1.fd.xrd + dmax(o.amount, 0) } })
    | FdEscape(o) => need(s, oathValue(s, { ...noOath, mode: "full", amount: o.amount }) == 0 and o.how == "none" )
    | TwInput(o) => owner(s).upd(s1 => if (s1.wrapper.indices().exists(k => s1.wrapper[k].res == o.res)) s1
        else { ...s1, wrapper: s1.wrapper.append({ res: o.res, on: true, amount: 0 }) })
    | TwWrappable(o) => owner(s).chk(s1 => s1.wrapper.indices().exists(k => s1.wrapper[k].res == o.res))
        .upd(s1 => { ...s1, wrapper: s1.wrapper.foldl([], (l, w) => l.append(if (w.res == o.res) { ...w, on: o.on } else w)) })
    | Wrap(o) => pay(s, o.res, o.amount).chk(s1 => s1.twauth > 0 and s1.wrapper.indices().exists(k => s1.wrapper[k].res == o.res and s1.wrapper[k].on))
        .upd(s1 => {
          val v = dmax(o.amount, 0)
          { ...s1, wrapper: s1.wrapper.foldl([], (l, w) => l.append(if (w.res == o.res) { ...w, amount: w.amount + v } else w)) }.give("BASE", v).mint("BASE", v)
        })
    | Unwrap(o) => pay(s, o.pres, o.amount)
        .chk(s1 => o.pres == "BASE" and s1.wrapper.indices().exists(k => s1.wrapper[k].res == o.res and s1.wrapper[k].amount >= roundDown(dmax(o.amount, 0), unitOf(o.res))))
        .upd(s1 => {
          val v = dmax(o.amount, 0)
          val c = roundDown(v, unitOf(o.res))
          { ...s1, wrapper: s1.wrapper.foldl([], (l, w) => l.append(if (w.res == o.res) { ...w, amount: w.amount - c } else w)) }.give(o.res, c).mint("BASE", -v)
        })
    | Flash(o) => {
        // a loan is only survivable when at least as many base tokens are returned as were lent
        val lent = if (o.how == "two") 2 * o.amount else o.amount
        val extra = if (o.rres == "BASE") o.repay - o.amount else o.repay
        val drained = o.using == ""
          or s.wrapper.indices().exists(k => s.wrapper[k].res == o.res and s.wrapper[k].on and s.wrapper[k].amount >= o.amount)
        need(s, o.amount >= 0 and s.twauth > 0 and (o.how == "repay" or o.how == "two") and o.rres == "BASE" and o.repay >= lent and drained
          and amountOf(s.wallet, "BASE") >= dmax(extra, 0))
          // with two loans the wallet paid for the second one up front and got it back at the end
          .upd(s1 => s1)
      }
    | OrAddKey(o) => owner(s).chk(s1 => not(s1.keys.keys().contains(o.id))).upd(s1 => { ...s1, keys: s1.keys.put(o.id, o.seed) })
    | OrRmKey(o) => owner(s).upd(s1 => { ...s1, keys: s1.keys.keys().exclude(Set(o.id)).mapBy(k => s1.keys.get(k)) })
    | OrRmPrice(o) => owner(s).upd(s1 => { ...s1, prices: without(s1.prices, o.feed) })
    | SetRole(o) => need(s, s.roles.keys().contains(o.role) and
          (s.sig.contains("D") or (userRoles.contains(o.role) and ruleSat(s.roles.get("user_admin"), s.sig))))
        .upd(s1 => { ...s1, roles: s1.roles.put(o.role, toRule(o.rule)) })
    | WithdrawAuthority(o) => owner(s).upd(s1 => if (o.comp == "EXCHANGE") { ...s1.give("AUTH", s1.exauth), exauth: 0 } else { ...s1, twauth: 0 })
    | DepositAuthority(o) => owner(s).bind(s1 => if (o.res == "BAUTH") begin(s1) else pay(s1, o.res, o.amount))
        .chk(s1 => (o.comp == "EXCHANGE" and o.res == "AUTH") or (o.comp == "TOKEN_WRAPPER" and o.res == "BAUTH"))
        .upd(s1 => if (o.comp == "EXCHANGE") { ...s1, exauth: s1.exauth + o.amount } else { ...s1, twauth: s1.twauth + o.amount })
    | Gate(o) => begin(s)
  }

  // Every request that is new or whose status changed is announced.
  pure def requestEvents(s: State, s1: State): List[Ev] = s1.accts.indices().fold([], (l, a) => {
    val old = if (hasAcct(s, a)) s.accts[a].reqs else []
    val now = s1.accts[a].reqs
    val l1 = now.indices().fold([], (m, n) =>
      if (n < length(old) and old[n].status == now[n].status) m else m.append(event("Request", [], [a, n, now[n].status, now[n].sub, now[n].exp], [])))
    if (length(l1) == 0) l else l.append(event("Requests", [], [a, length(l1)], [])).concat(l1)
  })

  pure def judge(s: State, st: Step): { s: State, r: Res } = {
    val s0 = { ...s, now: st.t, sig: toSet(st.signers) }
    val g = match st.op { | Gate(o) => refused(s0, o.comp, o.method) | _ => false }
    val t = perform(s0, st.op)
    val s1 = if (t.ok) t.s else s0
    { s: { ...s1, sig: Set(), fd: { ...s1.fd, xrd_known: s1.fd.xrd_known and not(locks(st.op)) } }, r: { ok: t.ok, near: t.near, gate: g, out: if (t.ok) t.out else [],
      ev: if (t.ok) t.ev.concat(requestEvents(s, t.s)) else [] } }
  }
  type Batch = { s: State, res: List[Res] }
  pure def judgeAll(s: State, l: List[Step]): Batch =
    l.foldl({ s: s, res: [] }, (b, st) => { val j = judge(b.s, st) { s: j.s, res: b.res.append(j.r) } })

  // ---- What the read-only calls of the exchange report ----
  type PosView = { pair: str, funding: int, mi: int, mm: int }
  type CollView = { res: str, amount: int, discount: int, margin: int, feed: str }
  type AcctView = { readable: bool, pos: List[PosView], coll: List[CollView], active: List[int], pages: List[List[int]], fwd: List[List[int]], present: List[bool] }
  type View = { value: int, ratio: int, lp_price: int, accts: List[AcctView], pairs: List[List[str]], inputs: List[List[str]], env: List[str] }
  // Pages asked for: (how many, first or last index or -1)
  pure val REQUEST_PAGES: List[(int, int)] = List((3, -1), (2, 1), (4, 50), (0, -1), (1, 0), (1, -1), (3, 4), (100, -1), (1, 2))
  pure val LIST_PAGES: List[(int, int)] = List((2, -1), (1, 1), (5, 1), (3, 7))
  // Requests an account itself is asked for: pages from the front, and single indexes counted from the end.
  pure val FORWARD_PAGES: List[(int, int)] = List((2, -1), (1, 1), (3, 2), (100, 0), (0, -1))
  pure def probes(len: int): List[int] = List(0, dmax(0, len - 1), len, len + 3)
  pure val VARIABLES: List[str] = List("a", "b", "c", "", "a.b")
  // The newest n requests up to an index, newest first.
  pure def newest(len: int, n: int, e: int): List[int] = {
    val end = if (e < 0) len else dmin(e + 1, len)
    val start = end - dmin(n, end)
    range(0, end - start).foldl([], (l, k) => l.append(end - 1 - k))
  }
  pure def page(l: List[str], n: int, b: int): List[str] = {
    val start = dmax(b, 0)
    val end = dmin(start + n, length(l))
    if (start >= end) [] else l.slice(start, end)
  }
  pure def onwards(len: int, n: int, b: int): List[int] = {
    val start = dmax(b, 0)
    range(start, dmax(start, dmin(start + n, len)))
  }
  pure def acctView(s: State, x: Acct): AcctView = {
    val known = hasCfg(s, x.pos.keys())
    {
      readable: known,
      pos: if (not(known)) [] else pairsIn(x.pos.keys()).foldl([], (m, p) => m.append({ pair: p, funding: fundingOwed(s, x, p),
        mi: dmul(abs(x.pos.get(p).amt), s.pcfg.get(p).margin_initial), mm: dmul(abs(x.pos.get(p).amt), s.pcfg.get(p).margin_maintenance) })),
      coll: COLLATERAL.foldl([], (m, r) => if (not(s.ccfg.keys().contains(r))) m
        else m.append({ res: r, amount: amountOf(x.coll, r), discount: s.ccfg.get(r).discount, margin: dmul(amountOf(x.coll, r), s.ccfg.get(r).margin), feed: s.ccfg.get(r).pair_id })),
      active: newest(length(x.reqs), length(x.reqs), -1).select(n => x.active.contains(n)),
      pages: REQUEST_PAGES.foldl([], (m, q) => m.append(newest(length(x.reqs), q._1, q._2))),
      fwd: FORWARD_PAGES.foldl([], (m, q) => m.append(onwards(length(x.reqs), q._1, q._2))),
      present: probes(length(x.reqs)).foldl([], (m, n) => m.append(n < length(x.reqs))),
    }
  }
  pure def view(s: State): View = {
    val sup = s.supply.get("LP")
    { value: poolValue(s), ratio: skewRatio(s),
      lp_price: if (sup == 0) ONE else ddiv(dmax(poolValue(s), ONE), sup),
      accts: s.accts.foldl([], (l, x) => l.append(acctView(s, x))),
      pairs: LIST_PAGES.foldl([], (m, q) => m.append(page(s.plist, q._1, q._2))),
      inputs: LIST_PAGES.foldl([], (m, q) => m.append(page(s.wrapper.foldl([], (l, w) => l.append(w.res)), q._1, q._2))),
      env: VARIABLES.foldl([], (m, k) => m.append(if (s.env.keys().contains(k)) s.env.get(k) else "")) }
  }
}
