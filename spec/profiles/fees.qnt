// Fee schedule, splits, rebates, payouts under varying configuration (P08, P22, P14, P24).
module fees {
  import gen.* from "../gen"

  pure val SHARES: List[int] = [0, 1, 10, 22, 30]
  pure def feeCfg(e: int, k: int): CfgX = { ...roomy,
    fee_share_protocol: frac(pick(e, k, SHARES), 2), fee_share_treasury: frac(pick(e, k + 1, [0, 1, 8, 15]), 2),
    fee_share_referral: frac(pick(e, k + 2, [0, 10, 50, 100, 100]), 2),
    fee_max: pick(e, k + 3, [0, frac(1, 4), frac(1, 3), frac(1, 1), frac(1, 1), i(1)]),
    fee_liquidity_add: frac(pick(e, k + 4, [0, 1, 3, 10]), 3), fee_liquidity_remove: frac(pick(e, k + 5, [0, 1, 7, 20]), 3),
    reward_keeper: pick(e, k + 6, [0, i(1), frac(25, 1)]), protocol_burn_amount: i(1000) }
  pure def feePair(p: str, e: int, k: int): CfgP = { ...pairCfg(p),
    fee_0: frac(pick(e, k, [0, 5, 50, 150]), 5), fee_1: pick(e, k + 1, [0, 10^9, 10^10, 10^11, 10^11]),
    funding_1: i(pick(e, k + 2, [0, 1])), margin_initial: frac(2, 2), margin_maintenance: frac(1, 2), oi_max: i(1000000000) }
  pure def setup(e: int): List[Step] =
    world(feeCfg(e, 1), [feePair("P1", e, 8), feePair("P2", e, 11)], [collCfg("C1", "FC1")], i(200000))
      .concat(referrer(pick(e, 14, [1000, 333, 0]), pick(e, 15, [1000, 77, 0]), "c0", 5))
      .concat([admin(START, MintRef({ fee_referral: frac(pick(e, 16, [10, 5, 1]), 2), fee_rebate: frac(pick(e, 17, [0, 5, 10]), 2), max: 7 })),
               go(START, CreateCodes({ ref: 1, tokens: [], codes: [("c1", [], 3)], fake: "" })),
               account("K1", [("BASE", i(20000))]), referred("K2", [("BASE", i(20000))], "c0"), referred("K3", [("BASE", i(20000)), ("C1", i(500))], "c1")])
  def order(e: int): List[Step] = {
    val a = d(e, 0, 3)
    val p = pickS(e, 1, ["P1", "P2"])
    val t = if (chance(e, 5, 70)) soon(s, e, 2) else later(s, e, 2)
    trade(s, t, a, p, amtOf(s, a, p, e, 3) * pick(e, 4, [1, 1, 5, 20]), moving(t + 1, e, 20, CALM))
  }
  // The skew flips: the impact part of the fee changes sign.
  def flip(e: int): List[Step] = {
    val a = d(e, 0, 3)
    val p = pickS(e, 1, ["P1", "P2"])
    val t = soon(s, e, 2)
    val q = pairOf(s, p)
    trade(s, t, a, p, -(q.oiL - q.oiS) * pick(e, 3, [100, 200, 50, 30]) / 100, still(s, t + 1))
  }
  def reconfigure(e: int): List[Step] =
    if (chance(e, 1, 50)) [admin(s.now, ExCfg({ cfg: feeCfg(e, 2) }))]
    else [admin(s.now, PairCfg({ cfgs: [feePair("P1", e, 8), feePair("P2", e, 11)] }))]
  def rates(e: int): List[Step] =
    [admin(s.now, UpdateRef({ ref: d(e, 1, 2), fee_referral: if (chance(e, 2, 60)) [frac(pick(e, 3, [0, 1, 5, 10, 11]), 2)] else [],
      fee_rebate: if (chance(e, 4, 60)) [frac(pick(e, 5, [0, 1, 5, 10, 11]), 2)] else [], max: [] }))]
  def crash(e: int): List[Step] = {
    val a = d(e, 0, 3)
    val t = soon(s, e, 2) + 1
    val down = pick(e, 3, [40, 60, 80])
    val m = px(FEEDS.foldl([], (l, f) => { val o = posOf(s.accts[a], f).amt l.append((f, moved(f, if (o > 0) down else if (o < 0) 200 - down else 100), t)) }))
    [go(t, Liquidate({ acct: a, amount: i(100000), pres: "BASE", px: m })), go(t + 1, UpdatePairs({ pairs: ["P1", "P2"], px: flat(t + 1) })),
     by(t + 1, keyOf(a), AddColl({ acct: a, tokens: [("BASE", i(10000))], oath: noOath }))]
  }
  // An account in debt, held up by its collateral, is liquidated.
  def sink(e: int): List[Step] = {
    val a = pick(e, 0, [1, 2, 2])
    val t = soon(s, e, 2)
    val p = pickS(e, 1, ["P1", "P2"])
    val x = posOf(s.accts[a], p).amt
    val lot = unit(p) * pick(e, 3, [50, 60, 80])
    val low = holding(s, p, moved(p, pick(e, 4, [85, 90])), t + 2)
    val deep = holding(s, p, moved(p, pick(e, 5, [30, 40, 60, 90])), t + 3)
    val n = nextReq(s, a)
    trade(s, t, a, p, lot - x, flat(t + 1)).concat([
      by(t + 1, keyOf(a), Order(plainOrder(a, p, -lot / 2))), go(t + 2, Process({ acct: a, index: n + 1, px: low })),
      go(t + 3, Liquidate({ acct: a, amount: i(100000), pres: "BASE", px: deep })), go(t + 3, UpdatePairs({ pairs: ["P1", "P2"], px: flat(t + 3) })),
      by(t + 3, keyOf(a), AddColl({ acct: a, tokens: [("BASE", i(200)), ("C1", i(pick(e, 6, [5000, 20000])))], oath: noOath }))])
  }
  def delever(e: int): List[Step] = {
    val t = soon(s, e, 2) + 1
    [admin(t, ExCfg({ cfg: { ...s.cfg, skew_ratio_cap: 0, adl_offset: 0, adl_a: i(1), adl_b: i(1) } })),
     go(t, Adl({ acct: d(e, 0, 3), pair: pickS(e, 1, ["P1", "P2"]), px: moving(t, e, 20, WILD) })), admin(t, ExCfg({ cfg: s.cfg }))]
  }
  def liq(e: int): List[Step] = {
    val t = soon(s, e, 2)
    if (chance(e, 3, 50)) [go(t, AddLiq({ amount: i(pick(e, 4, [1, 1000, 77777])), res: "BASE" }))]
    else [go(t, RemoveLiq({ amount: amountOf(s.wallet, "LP") * pick(e, 4, [1, 10, 40]) / 100, res: "LP" }))]
  }
  def collect(e: int): List[Step] = {
    val k = d(e, 1, 6)
    if (k == 0) [admin(s.now, CollectTreasury)]
    else if (k == 1) [go(s.now, SwapProtocol({ amount: i(pick(e, 2, [999, 1000, 1500])), res: "PROT" }))]
    else if (k < 5) [go(s.now, CollectRef({ ref: d(e, 2, 2), fake: "" }))]
    else [admin(s.now, CollectFeeDelegator)]
  }
  action init = { nondet e = ENTROPY.oneOf() begins(setup(e)) }
  action step = {
    nondet e = ENTROPY.oneOf()
    nondet k = 0.to(17).oneOf()
    plays(if (k < 6) order(e) else if (k < 8) flip(e) else if (k == 8) reconfigure(e) else if (k == 9) rates(e) else if (k == 10) crash(e) else if (k < 13) delever(e)
      else if (k == 13) liq(e) else if (k < 16) collect(e) else sink(e))
  }
}
