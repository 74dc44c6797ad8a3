// Funding over time: both sides, one side, rates out of bounds, settlement at every touch (P09).
module funding {
  import gen.* from "../gen"

  pure def fundPair(p: str, e: int, k: int): CfgP = { ...pairCfg(p),
    funding_1: frac(pick(e, k, [0, 1, 10, 20]), 1), funding_2: frac(pick(e, k + 1, [0, 1, 10, 40]), 1),
    funding_2_delta: i(pick(e, k + 2, [0, 1, 100, 10000])), funding_2_decay: i(pick(e, k + 3, [0, 1, 100, 10000])),
    funding_pool_0: frac(pick(e, k + 4, [0, 2, 50]), 2), funding_pool_1: frac(pick(e, k + 5, [0, 25, 200]), 2), funding_share: frac(pick(e, k + 6, [0, 2, 10]), 2),
    fee_0: if (chance(e, k + 7, 50)) 0 else frac(5, 4), fee_1: 0, margin_initial: frac(1, 2), margin_maintenance: frac(5, 3), price_age_max: 65535 }
  pure def setup(e: int): List[Step] =
    world(roomy, [fundPair("P1", e, 1), fundPair("P2", e, 9)], [], i(1000000))
      .concat([account("K1", [("BASE", i(100000))]), account("K2", [("BASE", i(100000))]), account("K3", [("BASE", i(100000))])])
  pure val GAPS: List[int] = [0, 1, 1, 60, 3600, 86400, 86400, 604800, 2592000, 31536000]
  def gap(e: int): int = s.now + pick(e, 9, GAPS)
  // Opposing trades, possibly within one second.
  def both(e: int): List[Step] = {
    val t = gap(e)
    val p = pickS(e, 1, ["P1", "P2"])
    val a = d(e, 3, 3)
    val b = (a + 1) % 3
    val m = moving(t + 1, e, 20, CALM)
    val n = unit(p) * pick(e, 4, [1, 5, 20])
    [by(t, keyOf(a), Order(plainOrder(a, p, n))), by(t, keyOf(b), Order(plainOrder(b, p, -n * pick(e, 5, [30, 100, 100, 170]) / 100))),
     go(t + 1, Process({ acct: a, index: nextReq(s, a), px: m })), go(t + 1, Process({ acct: b, index: nextReq(s, b), px: noPx }))]
  }
  def order(e: int): List[Step] = {
    val a = d(e, 0, 3)
    val p = pickS(e, 1, ["P1", "P2"])
    val t = gap(e)
    trade(s, t, a, p, amtOf(s, a, p, e, 3), moving(t + 1, e, 20, if (chance(e, 4, 70)) CALM else WILD))
  }
  // A reduce-only order that does nothing still settles.
  def touch(e: int): List[Step] = {
    val a = d(e, 0, 3)
    val p = pickS(e, 1, ["P1", "P2"])
    val t = gap(e)
    val o = posOf(s.accts[a], p).amt
    [by(t, keyOf(a), Order({ ...plainOrder(a, p, if (o < 0) -unit(p) else unit(p)), reduce: true })),
     go(t + 1, Process({ acct: a, index: nextReq(s, a), px: moving(t + 1, e, 20, CALM) }))]
  }
  // One side closes completely; the adaptive rate is left outside its bounds.
  def empty(e: int): List[Step] = {
    val t = gap(e)
    val a = d(e, 0, 3)
    val p = pickS(e, 1, ["P1", "P2"])
    trade(s, t, a, p, -posOf(s.accts[a], p).amt, moving(t + 1, e, 20, CALM))
  }
  def update(e: int): List[Step] = {
    val t = gap(e)
    val one = UpdatePairs({ pairs: if (chance(e, 3, 60)) ["P1", "P2"] else [pickS(e, 4, ["P1", "P2"])], px: moving(t, e, 20, if (chance(e, 5, 60)) CALM else WILD) })
    if (chance(e, 6, 25)) [go(t, one), go(t, one)] else [go(t, one)]
  }
  def reconfigure(e: int): List[Step] = [admin(s.now, PairCfg({ cfgs: [fundPair(pickS(e, 0, ["P1", "P2"]), e, 1)] }))]
  def push(e: int): List[Step] = { val t = gap(e) [go(t, Push({ px: moving(t, e, 20, WILD), want: [] }))] }
  def liquidation(e: int): List[Step] = {
    val a = d(e, 0, 3)
    val t = gap(e) + 1
    val down = pick(e, 3, [5, 30, 70])
    val m = px(FEEDS.foldl([], (l, f) => { val o = posOf(s.accts[a], f).amt l.append((f, moved(f, if (o > 0) down else if (o < 0) 200 - down + 100 else 100), t)) }))
    [go(t, Liquidate({ acct: a, amount: 0, pres: "BASE", px: m })), go(t + 1, UpdatePairs({ pairs: ["P1", "P2"], px: flat(t + 1) })),
     by(t + 1, keyOf(a), AddColl({ acct: a, tokens: [("BASE", i(20000))], oath: noOath }))]
  }
  def delever(e: int): List[Step] = {
    val t = gap(e) + 1
    [admin(t, ExCfg({ cfg: { ...s.cfg, skew_ratio_cap: 0, adl_offset: 0, adl_a: i(1), adl_b: i(1) } })),
     go(t, Adl({ acct: d(e, 0, 3), pair: pickS(e, 1, ["P1", "P2"]), px: moving(t, e, 20, WILD) })), admin(t, ExCfg({ cfg: s.cfg }))]
  }
  action init = { nondet e = ENTROPY.oneOf() begins(setup(e)) }
  action step = {
    nondet e = ENTROPY.oneOf()
    nondet k = 0.to(15).oneOf()
    plays(if (k < 3) both(e) else if (k < 6) order(e) else if (k == 6) touch(e) else if (k == 7) empty(e) else if (k < 12) update(e) else if (k == 12) reconfigure(e)
      else if (k == 13) push(e) else if (k == 14) liquidation(e) else delever(e))
  }
}
