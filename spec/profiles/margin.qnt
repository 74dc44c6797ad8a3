// Initial margin thresholds, hit exactly (P03). Pairs without fees and funding make every value exact.
module margin {
  import gen.* from "../gen"

  pure val EXACT: List[int] = [50, 80, 100, 100, 100, 125, 200]
  pure val OFF: List[int] = [0, 0, 0, -10^12, 10^12, 10^15, -10^15, 10^18, -5 * 10^18]
  pure def setup(e: int): List[Step] =
    world(roomy, [plainPair("P1"), { ...plainPair("P2"), margin_initial: frac(2, 2) }, { ...plainPair("P3"), margin_initial: frac(5, 1), margin_maintenance: frac(1, 1) }],
        [collCfg("C1", "FC1"), { ...collCfg("C2", "FC2"), discount: frac(8, 1), margin: frac(5, 2) }], i(10000000))
      .concat([admin(START, FdCfg({ max_lock: [i(1000000)], mult: [1000 * USD_XRD], cont: [] })),
        account("K1", [("BASE", i(1000)), ("C1", i(500))]), account("K2", [("BASE", i(2000))]), account("K3", [("C2", i(50)), ("C1", i(100))])])

  def prices(e: int, t: int): Px = moving(t, e, 20, EXACT)
  // The largest size that still leaves initial margin, give or take a little.
  def aimedOrder(e: int): List[Step] = {
    val a = d(e, 0, 3)
    val p = pickS(e, 1, ["P1", "P2", "P3"])
    val t = soon(s, e, 2)
    val m = prices(e, t + 1)
    val st = seenAt(s, t + 1, m)
    val o = posOf(st.accts[a], p).amt
    val long = if (o == 0 or chance(e, 3, 25)) chance(e, 4, 50) else o > 0
    val flips = (o > 0 and not(long)) or (o < 0 and long)
    val st2 = if (flips) closePosition(st, a, p, -o).s else st
    val room = surplus(st2, a, false) + pick(e, 5, OFF)
    val most = ddiv(dmax(room, 0), dmul(price(st, p), s.pcfg.get(p).margin_initial))
    val open = if (long) most else -most
    trade(s, t, a, p, if (flips) open - o else open, m)
  }
  // A position that uses part of the margin.
  def partOrder(e: int): List[Step] = {
    val a = d(e, 0, 3)
    val p = pickS(e, 1, ["P1", "P2", "P3"])
    val t = soon(s, e, 2)
    val m = prices(e, t + 1)
    val st = seenAt(s, t + 1, m)
    val most = tdiv(dmax(surplus(st, a, false), i(100)), 10^15) * 10^15 * pick(e, 5, [10, 50, 80]) / 100
    trade(s, t, a, p, ddiv(most, dmul(base(p), s.pcfg.get(p).margin_initial)) * (if (chance(e, 4, 50)) 1 else -1), m)
  }
  // The largest withdrawal that still leaves initial margin, give or take a little.
  def aimedWithdrawal(e: int): List[Step] = {
    val a = d(e, 0, 3)
    val t = soon(s, e, 2)
    val m = prices(e, t + 1)
    val st = seenAt(s, t + 1, m)
    val room = dmax(surplus(st, a, false) + pick(e, 5, OFF), 0)
    val r = pickS(e, 6, ["BASE", "BASE", "C1", "C2"])
    val c = if (s.ccfg.keys().contains(r)) s.ccfg.get(r) else collCfg("C1", "FC1")
    val amt = if (r == "BASE") room else ddiv(room, dmul(price(st, c.pair_id), c.discount - c.margin))
    val capped = if (r == "BASE") dmin(amt, s.accts[a].vb) else dmin(amt, amountOf(s.accts[a].coll, r))
    val claims = if (chance(e, 7, 20)) [(r, capped / 2), (r, capped - capped / 2)] else [(r, dmax(capped, 0))]
    [by(t, keyOf(a), RemoveReq({ acct: a, expiry: 100, target: "TARGET", claims: claims, oath: noOath })), go(t + 1, Process({ acct: a, index: nextReq(s, a), px: m }))]
  }
  // A delegated fee that uses up the margin exactly, give or take a little.
  def aimedOath(e: int): List[Step] = {
    val a = d(e, 0, 3)
    val t = soon(s, e, 2) + 1
    val m = prices(e, t)
    val st = seenAt(s, t, m)
    val o = { ...noOath, mode: "full", amount: dmin(dmax(surplus(st, a, false) + pick(e, 5, OFF), 0) / 1000, i(500)) }
    val k = d(e, 6, 6)
    val op = if (k == 0) AddColl({ acct: a, tokens: [("BASE", i(10))], oath: o }) else if (k == 1) Cancel({ acct: a, indexes: [], oath: o })
      else if (k == 2) RemoveReq({ acct: a, expiry: 100, target: "TARGET", claims: [("BASE", i(1))], oath: o })
      else if (k == 3) Order({ ...plainOrder(a, "P3", i(1)), oath: o })
      else if (k == 4) SetAuth({ acct: a, level: 2, rule: keyOf(a), oath: o }) else AddColl({ acct: a, tokens: [], oath: o })
    [go(t, Push({ px: m, want: [] })), by(t, keyOf(a), op)]
  }
  // Whatever the margin, exposure can be closed.
  def shut(e: int): List[Step] = {
    val a = d(e, 0, 3)
    val p = pickS(e, 1, ["P1", "P2", "P3"])
    val t = soon(s, e, 2)
    val o = posOf(s.accts[a], p).amt
    val amt = pick(e, 3, [-o, -o, tdiv(-o, 2), -2 * o])
    [by(t, keyOf(a), Order({ ...plainOrder(a, p, amt), reduce: chance(e, 4, 50) })), go(t + 1, Process({ acct: a, index: nextReq(s, a), px: moving(t + 1, e, 20, WILD) }))]
  }
  // Every position closed, at a loss if need be: what remains is balance or debt, and collateral.
  def shed(e: int): List[Step] = {
    val a = d(e, 0, 3)
    val t = soon(s, e, 2)
    val n = nextReq(s, a)
    val l = s.accts[a].pos.keys().fold([], (l, p) => l.append(p))
    val m = px(["P1", "P2", "P3"].foldl([("FC1", base("FC1"), t + 1), ("FC2", base("FC2"), t + 1)], (x, p) => {
      val o = posOf(s.accts[a], p).amt
      x.append((p, moved(p, if (o > 0) pick(e, 3, [80, 80, 125]) else pick(e, 3, [125, 125, 80])), t + 1)) }))
    if (length(l) == 0) partOrder(e) else range(0, length(l)).foldl([], (x, j) => x.append(by(t, keyOf(a), Order(plainOrder(a, l[j], -posOf(s.accts[a], l[j]).amt)))).append(go(t + 1, Process({ acct: a, index: n + j, px: m }))))
  }
  // All or part of the collateral of an account without positions.
  def bareWithdrawal(e: int): List[Step] = {
    val bare = 0.to(2).filter(x => s.accts[x].pos.keys().size() == 0 and s.accts[x].vb < 0).fold([], (l, x) => l.append(x))
    if (length(bare) == 0) shed(e) else {
      val a = pick(e, 0, bare)
      val t = soon(s, e, 2)
      val r = pickS(e, 6, ["C1", "C1", "C2"])
      val c = s.ccfg.get(r)
      val m = still(s, t + 1)
      val st = seenAt(s, t + 1, m)
      val room = dmax(surplus(st, a, false) + pick(e, 5, OFF), 0)
      val most = dmin(ddiv(room, dmul(price(st, c.pair_id), c.discount - c.margin)), amountOf(s.accts[a].coll, r))
      [by(t, keyOf(a), RemoveReq({ acct: a, expiry: 100, target: "TARGET", claims: [(r, if (chance(e, 7, 50)) most else amountOf(s.accts[a].coll, r))], oath: noOath })), go(t + 1, Process({ acct: a, index: nextReq(s, a), px: m }))]
    }
  }
  def deposit(e: int): List[Step] = {
    val t = soon(s, e, 2)
    [by(t, keyOf(d(e, 0, 3)), AddColl({ acct: d(e, 0, 3), tokens: [(pickS(e, 1, ["BASE", "C1", "C2"]), i(pick(e, 3, [1, 100, 1000])))], oath: noOath }))]
  }
  action init = { nondet e = ENTROPY.oneOf() begins(setup(e)) }
  action step = {
    nondet e = ENTROPY.oneOf()
    nondet k = 0.to(12).oneOf()
    plays(if (k < 3) aimedOrder(e) else if (k == 3) partOrder(e) else if (k < 6) aimedWithdrawal(e) else if (k == 6) aimedOath(e)
      else if (k == 7) shut(e) else if (k == 8) deposit(e) else if (k == 10) shed(e) else if (k > 10) bareWithdrawal(e) else partOrder(e))
  }
}
