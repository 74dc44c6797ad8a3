// Liquidations at, just above and below the maintenance threshold (P04).
module liquid {
  import gen.* from "../gen"

  pure def setup(e: int): List[Step] = {
    val plain = chance(e, 1, 60)
    val p1 = if (plain) plainPair("P1") else pairCfg("P1")
    val p2 = if (plain) { ...plainPair("P2"), margin_initial: frac(1, 1), margin_maintenance: frac(5, 2) } else pairCfg("P2")
    world(roomy, [p1, p2], [collCfg("C1", "FC1"), { ...collCfg("C2", "FC2"), discount: frac(85, 2), margin: frac(5, 2) }], i(1000000))
      .concat(referrer(1000, 500, "c0", 5))
      .concat([account("K1", [("BASE", i(1000)), ("C1", i(500))]), referred("K2", [("BASE", i(300)), ("C2", frac(12345678, 6))], "c0"), account("K3", [("BASE", i(2000))])])
  }
  // A highly levered position.
  def lever(e: int): List[Step] = {
    val a = d(e, 0, 3)
    val p = pickS(e, 1, ["P1", "P2"])
    val t = soon(s, e, 2)
    val m = moving(t + 1, e, 20, CALM)
    val st = seenAt(s, t + 1, m)
    val most = tdiv(dmax(surplus(st, a, false), i(10)), 10^18) * 10^18 * pick(e, 5, [30, 60, 90, 95, 99]) / 100
    trade(s, t, a, p, ddiv(most, dmul(base(p), s.pcfg.get(p).margin_initial)) * (if (chance(e, 4, 50)) 1 else -1), m)
  }
  // Something pending that a liquidation must invalidate.
  def ask(e: int): List[Step] = {
    val a = d(e, 0, 3)
    val t = soon(s, e, 2)
    if (chance(e, 3, 40)) [by(t, keyOf(a), RemoveReq({ acct: a, expiry: 1000, target: "TARGET", claims: [("BASE", i(1))], oath: noOath }))]
    else [by(t, keyOf(a), Order({ ...plainOrder(a, pickS(e, 1, ["P1", "P2"]), i(1)), status: d(e, 4, 2), delay: pick(e, 5, [0, 10]) }))]
  }
  // Prices that hurt the account's positions.
  pure def adverse(st: State, a: int, t: int, e: int, k: int): Px = {
    val down = pick(e, k, [50, 80, 85, 88, 90, 92, 95, 98])
    px(FEEDS.foldl([], (l, f) => {
      val o = posOf(st.accts[a], f).amt
      l.append((f, moved(f, if (o > 0) down else if (o < 0) 200 - down else pick(e, k + 1, [80, 100, 100, 125])), t))
    }))
  }
  pure def offer(st: State, a: int, e: int, k: int): int = {
    val v = valueCollateral(st, st.accts[a]).value
    pick(e, k, [v, v, v, v + i(100), v + 10^12, v - 10^12, 0, i(100000), i(50000), i(50000)])
  }
  // Price move, a deposit that brings the account to the threshold (or a hair off), liquidation.
  def aimed(e: int): List[Step] = {
    val a = d(e, 0, 3)
    val t = soon(s, e, 2) + 1
    val m = adverse(s, a, t, e, 20)
    val ids = s.accts[a].pos.keys()
    val st = pairsIn(ids).foldl(seenAt(s, t, m), (x, p) => updatePair(x, p).s)
    val miss = dmax(0, -surplus(st, a, true) + pick(e, 5, [0, 0, 0, -10^12, 10^12, -10^18, 10^18]))
    [by(t, keyOf(a), AddColl({ acct: a, tokens: [("BASE", miss)], oath: noOath })), go(t, Liquidate({ acct: a, amount: dmax(0, offer(st, a, e, 6)), pres: "BASE", px: m }))]
  }
  // The mildest fall of prices that leaves the account below maintenance, or the step before it.
  pure def fallen(a: int, st: State, t: int, down: int): Px =
    px(FEEDS.foldl([], (l, f) => {
      val o = posOf(st.accts[a], f).amt
      l.append((f, moved(f, if (o > 0) down else if (o < 0) 200 - down else if (f == "FC1" or f == "FC2") down else 100), t))
    }))
  pure def settledAt(st: State, a: int, t: int, m: Px): State = pairsIn(st.accts[a].pos.keys()).foldl(seenAt(st, t, m), (x, p) => updatePair(x, p).s)
  def doomed(e: int): List[Step] = doomedOf(d(e, 0, 3), e)
  def doomedOf(a: int, e: int): List[Step] = {
    val t = soon(s, e, 2) + 1
    val l = [99, 98, 97, 96, 95, 94, 93, 92, 90, 88, 85, 80, 70, 50, 20, 1]
    val j = l.foldl((0, false), (acc, down) => if (acc._2) acc else if (surplus(settledAt(s, a, t, fallen(a, s, t, down)), a, true) < 0) (acc._1, true) else (acc._1 + 1, false))._1
    val m = fallen(a, s, t, l[dmax(0, dmin(15, j - (if (chance(e, 3, 20)) 1 else 0)))])
    val st = settledAt(s, a, t, m)
    [go(t, Liquidate({ acct: a, amount: dmax(0, if (chance(e, 4, 60)) valueCollateral(st, st.accts[a]).value + i(100) else offer(st, a, e, 6)), pres: "BASE", px: m }))]
  }
  def attempt(e: int): List[Step] = {
    val a = d(e, 0, 3)
    val t = later(s, e, 2) + 1
    val m = if (chance(e, 9, 80)) adverse(s, a, t, e, 20) else moving(t, e, 20, WILD)
    val st = pairsIn(s.accts[a].pos.keys()).foldl(seenAt(s, t, m), (x, p) => updatePair(x, p).s)
    [go(t, Liquidate({ acct: a, amount: dmax(0, offer(st, a, e, 6)), pres: if (chance(e, 7, 90)) "BASE" else pickS(e, 8, ["C1", "CX", "LP"]), px: m }))]
  }
  // Old requests, with or without a liquidation in between.
  def old(e: int): List[Step] = {
    val a = d(e, 0, 3)
    val t = soon(s, e, 2) + 1
    val n = dmax(0, length(s.accts[a].reqs) - 1 - d(e, 3, 4))
    if (chance(e, 4, 30)) [by(t, keyOf(a), Cancel({ acct: a, indexes: [n], oath: noOath }))]
    else [go(t, Process({ acct: a, index: n, px: moving(t, e, 20, CALM) }))]
  }
  // Every position closed at a loss, so that only debt and collateral remain.
  def shed(e: int): List[Step] = {
    val a = d(e, 0, 3)
    val t = soon(s, e, 2)
    val m = adverse(s, a, t + 1, e, 20)
    val n = nextReq(s, a)
    val l = s.accts[a].pos.keys().fold([], (l, p) => l.append(p))
    if (length(l) == 0) lever(e) else range(0, length(l)).foldl([], (x, j) => x.append(by(t, keyOf(a), Order(plainOrder(a, l[j], -posOf(s.accts[a], l[j]).amt)))).append(go(t + 1, Process({ acct: a, index: n + j, px: m }))))
  }
  def bare(a: int): bool = s.accts[a].vb < 0 and s.accts[a].pos.keys().size() == 0
  // Requests of an account with debt but without positions, its collateral losing value, liquidation, the requests' execution.
  def sink(e: int): List[Step] = {
    val a = if (bare(d(e, 0, 3))) d(e, 0, 3) else if (bare(0)) 0 else if (bare(1)) 1 else d(e, 0, 3)
    val t = soon(s, e, 2) + 1
    val n = nextReq(s, a)
    val m = px([("P1", base("P1"), t), ("P2", base("P2"), t), ("FC1", base("FC1") * pick(e, 3, [1, 5, 20, 50, 100]) / 100, t), ("FC2", base("FC2") * pick(e, 4, [1, 5, 20, 50, 100]) / 100, t)])
    val st = seenAt(s, t, m)
    val ask = if (chance(e, 5, 30)) [] else if (chance(e, 5, 60)) [by(t - 1, keyOf(a), Order({ ...plainOrder(a, "P1", i(1) / 100), status: d(e, 6, 2) }))]
      else [by(t - 1, keyOf(a), RemoveReq({ acct: a, expiry: 1000, target: "TARGET", claims: [("C1", i(1))], oath: noOath }))]
    sandwich(ask, [go(t, Liquidate({ acct: a, amount: dmax(0, offer(st, a, e, 7)), pres: "BASE", px: m }))],
      if (chance(e, 8, 70)) [by(t, keyOf(a), AddColl({ acct: a, tokens: [("BASE", i(1000))], oath: noOath })), go(t + 1, Process({ acct: a, index: dmax(0, n - pick(e, 9, [0, 0, 0, 1])), px: still(st, t + 1) }))] else [])
  }
  // Requests left behind by a liquidation: cancelled, cancelled again, executed, next to new ones.
  def relic(e: int): List[Step] = {
    val a = if (s.accts[d(e, 0, 3)].vrs > 0) d(e, 0, 3) else if (s.accts[0].vrs > 0) 0 else if (s.accts[1].vrs > 0) 1 else d(e, 0, 3)
    val t = soon(s, e, 2) + 1
    val x = s.accts[a]
    val n = nextReq(s, a)
    val left = range(0, n).select(j => x.reqs[j].status < 2 and j < x.vrs)
    val fresh = by(t, keyOf(a), Order({ ...plainOrder(a, "P1", i(1) / 100), status: d(e, 6, 2) }))
    if (length(left) == 0) {
      val b = if (x.pos.keys().size() > 0) a else if (s.accts[0].pos.keys().size() > 0) 0 else if (s.accts[1].pos.keys().size() > 0) 1 else a
      val m = nextReq(s, b)
      val pend = by(s.now, keyOf(b), Order({ ...plainOrder(b, "P1", i(1) / 100), status: d(e, 6, 2), delay: pick(e, 7, [0, 10]) }))
      val hit = doomedOf(b, e)
      List(pend, pend).concat(hit).concat([by(t, keyOf(b), Cancel({ acct: b, indexes: if (chance(e, 3, 60)) [m] else [m, m + 1], oath: noOath })),
        by(t, keyOf(b), Order({ ...plainOrder(b, "P1", i(1) / 100), status: 1, delay: 0 }))])
    } else {
      val j = left[d(e, 1, length(left))]
      val drop = by(t, keyOf(a), Cancel({ acct: a, indexes: if (chance(e, 3, 60)) [j] else if (chance(e, 3, 80)) [n, j] else [j, n], oath: noOath }))
      if (chance(e, 4, 25)) [go(t, Process({ acct: a, index: j, px: still(s, t) })), drop]
      else if (chance(e, 5, 60)) [fresh, drop, fresh]
      else [drop, fresh]
    }
  }
  def deposit(e: int): List[Step] =
    [by(soon(s, e, 2), keyOf(d(e, 0, 3)), AddColl({ acct: d(e, 0, 3), tokens: [(pickS(e, 1, ["BASE", "C1", "C2"]), i(pick(e, 3, [10, 100, 1000])))], oath: noOath }))]
  // A collateral is taken out of the configuration (and back in).
  def toggle(e: int): List[Step] =
    if (s.ccfg.keys().contains("C1")) [admin(s.now, CollRm({ res: "C1" }))] else [admin(s.now, CollCfg({ cfgs: [collCfg("C1", "FC1")] }))]

  action init = { nondet e = ENTROPY.oneOf() begins(setup(e)) }
  action step = {
    nondet e = ENTROPY.oneOf()
    nondet k = 0.to(18).oneOf()
    plays(if (k == 16 or (k < 5 and (bare(0) or bare(1)) and chance(e, 30, 60))) sink(e) else if (k == 17) shed(e) else if (k == 18) relic(e) else if (k < 5) lever(e) else if (k < 7) ask(e) else if (k == 9) doomed(e) else if (k < 9) aimed(e) else if (k == 10) doomed(e) else if (k == 11) attempt(e) else if (k < 14) old(e) else if (k == 14) deposit(e) else if (chance(e, 9, 30)) toggle(e) else relic(e))
  }
}
