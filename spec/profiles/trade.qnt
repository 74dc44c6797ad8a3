// Trading: all kinds of orders by three accounts on three pairs (P01, P02, P06, P07, P08, P09).
module trade {
  import gen.* from "../gen"

  pure def setup(e: int): List[Step] =
    world({ ...defaultCfg, skew_ratio_cap: if (chance(e, 1, 50)) i(10) else frac(3, 1) }, [pairCfg("P1"), pairCfg("P2"), { ...pairCfg("P3"), margin_initial: frac(5, 2), margin_maintenance: frac(25, 3) }], colls, i(100000))
      .concat(referrer(pick(e, 2, [1000, 500, 0]), pick(e, 3, [1000, 300, 0]), "c0", 5))
      .concat([account("K1", [("BASE", i(10000))]), referred("K2", [("BASE", i(8000)), ("C1", i(2000))], "c0"), account("K3", [("BASE", i(3000)), ("C2", i(100))])])

  def order(e: int): List[Step] = {
    val a = d(e, 0, 3)
    val p = pickS(e, 1, ["P1", "P2", "P3"])
    val t = later(s, e, 2)
    val m = moving(t + 1, e, 10, if (chance(e, 3, 70)) CALM else WILD)
    val o = { ...plainOrder(a, p, amtOf(s, a, p, e, 4)), reduce: chance(e, 5, 20), plim: limitOf(p, e, 6), slip: slipOf(e, 7) }
    [by(t, keyOf(a), Order(o)), go(t + 1, Process({ acct: a, index: nextReq(s, a), px: m }))]
  }
  // Two trades of different accounts in one second.
  def pair(e: int): List[Step] = {
    val t = later(s, e, 2)
    val p = pickS(e, 1, ["P1", "P2"])
    val a = d(e, 3, 3)
    val b = (a + 1) % 3
    [by(t, keyOf(a), Order(plainOrder(a, p, amtOf(s, a, p, e, 4)))), by(t, keyOf(b), Order(plainOrder(b, p, amtOf(s, b, p, e, 5)))),
     go(t + 1, Process({ acct: a, index: nextReq(s, a), px: moving(t + 1, e, 10, CALM) })), go(t + 1, Process({ acct: b, index: nextReq(s, b), px: noPx }))]
  }
  // The fee limit exactly at, just below or above the fee.
  def aimedFee(e: int): List[Step] = {
    val a = d(e, 0, 3)
    val p = pickS(e, 1, ["P1", "P2", "P3"])
    val t = s.now + 1
    val o = posOf(s.accts[a], p).amt
    val amt = unit(p) * (if (o < 0) -1 else 1) * pick(e, 3, [1, 2, 5])
    val fee = tradeFee(s, p, rebate(s, s.accts[a]), base(p), dmul(amt, base(p)))
    val r = { ...plainOrder(a, p, amt), slip: ("abs", dmax(0, fee + pick(e, 4, [0, -1, 1, 10^9, -10^9, 10^15, -10^15]))) }
    [by(t, keyOf(a), Order(r)), go(t + 1, Process({ acct: a, index: nextReq(s, a), px: flat(t + 1) }))]
  }
  // More than the position, reduced to it; the fee limit aims at the fee of what is traded.
  def aimedReduce(e: int): List[Step] = {
    val a = d(e, 0, 3)
    val ids = s.accts[a].pos.keys().fold([], (l, p) => l.append(p))
    val p = if (length(ids) == 0) "P1" else pickS(e, 1, ids)
    val t = s.now + 1
    val o = posOf(s.accts[a], p).amt
    val m = still(s, t + 1)
    val st = updatePair(seenAt(s, t + 1, m), p).s
    val value = dmul(-o, lastPrice(s, p))
    val fee = tradeFee(st, p, rebate(s, s.accts[a]), lastPrice(s, p), value)
    val l = if (chance(e, 3, 30)) ("abs", dmax(0, fee + pick(e, 4, [0, -1, 1, 10^12, -(10^12)])))
      else ("pct", dmax(0, if (value == 0) 0 else fee * 100 * 10^18 / abs(value) + pick(e, 4, [10^12, -(10^12), frac(1, 2), -frac(1, 2), 10^9, -(10^9)])))
    [by(t, keyOf(a), Order({ ...plainOrder(a, p, -o * pick(e, 5, [1, 2, 3, 10, 100])), reduce: true, slip: l })), go(t + 1, Process({ acct: a, index: nextReq(s, a), px: m }))]
  }
  def update(e: int): List[Step] = {
    val t = later(s, e, 2)
    [go(t, UpdatePairs({ pairs: if (chance(e, 3, 50)) ["P1", "P2", "P3"] else [pickS(e, 4, ["P1", "P2", "P3"])], px: moving(t, e, 10, WILD) }))]
  }
  action init = { nondet e = ENTROPY.oneOf() begins(setup(e)) }
  action step = {
    nondet e = ENTROPY.oneOf()
    nondet k = 0.to(11).oneOf()
    plays(if (k < 6) order(e) else if (k == 6) pair(e) else if (k == 7) aimedFee(e) else if (k == 8) update(e) else if (k < 11) aimedReduce(e) else order(e))
  }
}
