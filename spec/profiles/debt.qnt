// Accounts in debt and those who swap it against their collateral (P17).
module debt {
  import gen.* from "../gen"

  pure def collFor(r: str, f: str, e: int, k: int): CfgC = { ...collCfg(r, f), discount: frac(pick(e, k, [80, 85, 90, 95, 100]), 2), margin: frac(pick(e, k + 1, [0, 5, 10]), 2) }
  pure def setup(e: int): List[Step] =
    world(roomy, [{ ...plainPair("P1"), margin_initial: frac(1, 2), margin_maintenance: frac(5, 3) }], [collFor("C1", "FC1", e, 1), collFor("C2", "FC2", e, 3), collFor("C3", "FC1", e, 5)], i(1000000))
      .concat([account("K1", [("C1", i(1000)), ("C2", frac(77777777, 6))]), account("K2", [("BASE", i(10)), ("C3", i(500)), ("C1", i(1))]), account("K3", [("BASE", i(5000))])])
  // A round trip at a loss.
  def lose(e: int): List[Step] = {
    val a = d(e, 0, 2)
    val t = s.now
    val n = i(pick(e, 1, [5, 10, 20]))
    val p1 = pick(e, 2, [70, 80, 90, 98])
    trade(s, t, a, "P1", n, flat(t + 1)).concat([by(t + 1, keyOf(a), Order(plainOrder(a, "P1", -n))), go(t + 2, Process({ acct: a, index: nextReq(s, a) + 1, px: only("P1", i(p1), t + 2) }))])
  }
  def indebted(e: int): int = if (chance(e, 0, 50) and s.accts[0].vb < 0) 0 else if (s.accts[1].vb < 0) 1 else if (s.accts[0].vb < 0) 0 else d(e, 0, 3)
  def swap(e: int): List[Step] = {
    val a = if (chance(e, 9, 90)) indebted(e) else d(e, 0, 3)
    val t = s.now + pick(e, 1, [0, 1, 5])
    val r = pickS(e, 2, ["C1", "C1", "C1", "C2", "C2", "C2", "C3", "C3", "C3", "BASE", "CX"])
    val owed = -s.accts[a].vb
    val m = if (chance(e, 3, 50)) moving(t, e, 20, WILD) else flat(t)
    val v = if (chance(e, 4, 60)) dmax(0, owed * pick(e, 5, [1, 10, 50, 100, 100, 101, 300]) / 100) else pick(e, 5, [0, 1, 10^12, i(1), i(7), i(100000)])
    [go(t, SwapDebt({ acct: a, res: r, amount: roundDown(v, 1), pres: if (chance(e, 6, 94)) "BASE" else pickS(e, 7, ["C1", "CX"]), px: if (chance(e, 8, 90)) m else noPx }))]
  }
  // The payment that buys exactly what is held.
  def exact(e: int): List[Step] = {
    val a = indebted(e)
    val t = s.now + 1
    val r = pickS(e, 2, ["C1", "C2", "C3"])
    val m = flat(t)
    if (not(s.ccfg.keys().contains(r))) swap(e) else {
      val c = s.ccfg.get(r)
      val pr = dmul(base(c.pair_id), dmul(c.discount, frac(1, 1)) + frac(9, 1))
      [go(t, SwapDebt({ acct: a, res: r, amount: dmax(0, dmul(amountOf(s.accts[a].coll, r), pr) + pick(e, 3, [0, 1, -1, 10^12, -10^12])), pres: "BASE", px: m }))]
    }
  }
  def deposit(e: int): List[Step] = {
    val a = d(e, 0, 3)
    [by(s.now, keyOf(a), AddColl({ acct: a, tokens: [(pickS(e, 1, ["BASE", "C1", "C2", "C3"]), i(pick(e, 2, [1, 10, 300])))], oath: noOath }))]
  }
  def configure(e: int): List[Step] =
    if (chance(e, 0, 70)) [admin(s.now, CollCfg({ cfgs: [collFor("C1", "FC1", e, 1), collFor("C2", "FC2", e, 3), collFor("C3", "FC1", e, 5)] }))] else [admin(s.now, CollRm({ res: pickS(e, 1, ["C1", "C2", "C3"]) }))]
  action init = { nondet e = ENTROPY.oneOf() begins(setup(e)) }
  action step = {
    nondet e = ENTROPY.oneOf()
    nondet k = 0.to(15).oneOf()
    plays(if (k < 4) lose(e) else if (k < 11) swap(e) else if (k < 13) exact(e) else if (k < 15) deposit(e) else configure(e))
  }
}
