// Liquidity shares against a changing pool value (P14, P06, P08).
module lp {
  import gen.* from "../gen"

  pure def lpCfg(e: int): CfgX = { ...roomy, skew_ratio_cap: pick(e, 1, [i(1000), i(1000), i(1000), i(1000), i(1), frac(1, 1)]),
    fee_liquidity_add: if (chance(e, 2, 90)) pick(e, 12, [0, frac(1, 3), frac(1, 2), frac(5, 1)]) else pick(e, 12, [i(1), frac(11, 1)]), fee_liquidity_remove: if (chance(e, 3, 90)) pick(e, 13, [0, frac(1, 3), frac(1, 2), frac(5, 1)]) else pick(e, 13, [i(1), frac(11, 1)]),
    fee_share_protocol: frac(pick(e, 4, [0, 1, 3]), 1), fee_share_treasury: frac(pick(e, 5, [0, 8, 15]), 2) }
  pure def setup(e: int): List[Step] =
    [admin(START, ExCfg({ cfg: { ...lpCfg(e), skew_ratio_cap: i(1000) } })), admin(START, PairCfg({ cfgs: [if (chance(e, 6, 50)) plainPair("P1") else pairCfg("P1"), pairCfg("P2")] })),
     admin(START, CollCfg({ cfgs: [collCfg("C1", "FC1")] })), go(START, Push({ px: flat(START), want: [] }))]
      .concat([account("K1", [("BASE", i(10000))]), account("K2", [("BASE", i(20000))])])
  def add(e: int): List[Step] = {
    val t = soon(s, e, 0)
    [go(t, AddLiq({ amount: pick(e, 1, [1, 999, 10^9, i(1), i(1000), i(1000), i(12345) + 678, i(50000), i(50000), 0]), res: if (chance(e, 2, 93)) "BASE" else pickS(e, 3, ["C1", "LP", "CX"]) }))]
  }
  def remove(e: int): List[Step] = {
    val t = soon(s, e, 0)
    val have = amountOf(s.wallet, "LP")
    [go(t, RemoveLiq({ amount: if (chance(e, 4, 70)) have * pick(e, 1, [1, 10, 50, 99, 100, 101]) / 100 else dmin(have, pick(e, 1, [1, 1000, 10^9, i(1)])), res: if (chance(e, 2, 93)) "LP" else pickS(e, 3, ["C1", "BASE"]) }))]
  }
  // Removal of everything the pool holds, or a hair more.
  def drain(e: int): List[Step] = {
    val t = soon(s, e, 0)
    val v = dmax(poolValue(s), 0)
    val gross = ddiv(s.pool.tokens + pick(e, 1, [0, 10^12, -10^12]), dmax(ONE - s.cfg.fee_liquidity_remove, 1))
    val l = if (v == 0 or s.supply.get("LP") == 0) 0 else ddiv(gross, ddiv(v, s.supply.get("LP")))
    [go(t, RemoveLiq({ amount: clamp(l, 0, amountOf(s.wallet, "LP")), res: "LP" }))]
  }
  def order(e: int): List[Step] = {
    val t = soon(s, e, 2)
    val a = d(e, 0, 2)
    val p = pickS(e, 1, ["P1", "P2"])
    trade(s, t, a, p, amtOf(s, a, p, e, 3), moving(t + 1, e, 20, CALM))
  }
  // Prices move: the pool gains or loses, possibly everything.
  def drift(e: int): List[Step] = {
    val t = later(s, e, 2)
    [go(t, UpdatePairs({ pairs: ["P1", "P2"], px: moving(t, e, 20, [10, 50, 80, 90, 95, 100, 105, 110, 125, 200, 500]) }))]
  }
  def reconfigure(e: int): List[Step] = [admin(s.now, ExCfg({ cfg: lpCfg(e) }))]
  def collect(e: int): List[Step] = if (chance(e, 0, 50)) [admin(s.now, CollectTreasury)] else [go(s.now, SwapProtocol({ amount: i(10000), res: "PROT" }))]
  action init = { nondet e = ENTROPY.oneOf() begins(setup(e)) }
  action step = {
    nondet e = ENTROPY.oneOf()
    nondet k = 0.to(19).oneOf()
    plays(if (k < 6) add(e) else if (k < 10) remove(e) else if (k == 10) drain(e) else if (k < 14) order(e) else if (k < 17) drift(e) else if (k < 19) reconfigure(e) else collect(e))
  }
}
