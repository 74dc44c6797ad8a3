// Where prices come from and how old they may be (P15).
module oracle {
  import gen.* from "../gen"

  pure val AGES: List[int] = [1, 5, 60, 60, 600]
  pure def setup(e: int): List[Step] =
    world(roomy, [{ ...plainPair("P1"), price_age_max: pick(e, 1, AGES) }, { ...plainPair("P2"), price_age_max: pick(e, 2, AGES) }],
        [{ ...collCfg("C1", "FC1"), price_age_max: pick(e, 3, AGES) }, { ...collCfg("C2", "P1"), price_age_max: pick(e, 4, AGES) }], i(100000))
      .concat([account("K1", [("BASE", i(10000)), ("C1", i(10))]), account("K2", [("BASE", i(10000)), ("C2", i(1))])])
      // A debt, a large position on two pairs, and an account that lives with leverage.
      .concat([account("K4", [("C1", i(5000)), ("C2", i(5))]), account("K1", [("BASE", i(20000)), ("C1", i(100))]), account("K3", [("BASE", i(100)), ("C2", i(1))])])
      .concat([by(START, "K4", Order(plainOrder(2, "P1", i(100)))), go(START + 1, Process({ acct: 2, index: 0, px: flat(START + 1) })),
        by(START + 1, "K4", Order(plainOrder(2, "P1", -i(100)))), go(START + 2, Process({ acct: 2, index: 1, px: only("P1", i(90), START + 2) })),
        by(START + 2, "K1", Order(plainOrder(3, "P1", i(100)))), go(START + 3, Process({ acct: 3, index: 0, px: flat(START + 3) })),
        by(START + 3, "K1", Order(plainOrder(3, "P2", i(2)))), go(START + 4, Process({ acct: 3, index: 1, px: flat(START + 4) }))])
      .concat(if (chance(e, 5, 40)) [admin(START, CollCfg({ cfgs: [{ ...collCfg("C3", "FC1"), price_age_max: pick(e, 6, AGES) }] }))] else [])
  // Some prices, at times around the stored ones or the present.
  def message(t: int, e: int, k: int): Px = {
    val l = FEEDS.foldl({ k: k, l: [] }, (acc, p) => {
      val at = if (s.prices.keys().contains(p) and chance(e, acc.k, 25)) s.prices.get(p)._2 + pick(e, acc.k + 1, [-1, 0, 1]) else t - pick(e, acc.k + 1, [0, 0, 0, 1, 5, 60, -5])
      { k: acc.k + 3, l: if (chance(e, acc.k + 2, 85)) acc.l.append((p, if (chance(e, acc.k + 1, 3)) 0 else moved(p, pick(e, acc.k, CALM)), at)) else acc.l }
    }).l
    px(l)
  }
  // Something is wrong with it, or not.
  def doubtful(m: Px, e: int, k: int): Px = {
    val c = d(e, k, 20)
    if (c == 0) { ...m, tamper: "data" } else if (c == 1) { ...m, tamper: "sig" } else if (c == 2) { ...m, tamper: "garbage" } else if (c == 3) { ...m, tamper: "ts" } else if (c == 4) { ...m, tamper: "append" }
    else if (c == 5) { ...m, seed: 2 } else if (c == 6) { ...m, key: 1 } else if (c == 7) { ...m, key: 1, seed: 2 } else if (c == 8) { ...m, key: 5 } else m
  }
  def push(e: int): List[Step] = {
    val t = s.now + pick(e, 0, [0, 1, 5, 60])
    val m = doubtful(message(t, e, 2), e, 1)
    if (chance(e, 20, 15)) [go(t, Push({ px: m, want: [] })), go(t, Push({ px: m, want: ["P1"] }))] else [go(t, Push({ px: m, want: if (chance(e, 21, 30)) [pickS(e, 22, ["P1", "FC1", "P4"])] else [] }))]
  }
  // A time at which the age of a price is exactly the limit, one less or one more.
  def brink(e: int): int = {
    val f = pickS(e, 30, ["P1", "P1", "P2", "FC1"])
    val age = if (f == "FC1") s.ccfg.get("C1").price_age_max else if (chance(e, 31, 40) and f == "P1") s.ccfg.get("C2").price_age_max else s.pcfg.get(if (f == "FC1") "P1" else f).price_age_max
    if (s.prices.keys().contains(f)) dmax(s.now, s.prices.get(f)._2 + age + pick(e, 32, [-1, -1, 0, 1])) else s.now
  }
  def use(e: int): List[Step] = {
    val t = if (chance(e, 0, 70)) brink(e) else s.now + pick(e, 1, [0, 1, 4, 5, 59, 60])
    val a = d(e, 2, 2)
    val k = d(e, 3, 7)
    val m = if (chance(e, 4, 65)) noPx else doubtful(message(t, e, 6), e, 5)
    if (k == 0) [go(t, UpdatePairs({ pairs: if (chance(e, 23, 50)) ["P1", "P2"] else ["P1"], px: m }))]
    else if (k == 1) [by(s.now, keyOf(a), Order(plainOrder(a, pickS(e, 24, ["P1", "P2"]), unit("P1")))), go(dmax(t, s.now + 1), Process({ acct: a, index: nextReq(s, a), px: m }))]
    else if (k == 2) [by(s.now, keyOf(a), RemoveReq({ acct: a, expiry: 1000, target: "TARGET", claims: [("BASE", i(1))], oath: noOath })), go(dmax(t, s.now + 1), Process({ acct: a, index: nextReq(s, a), px: m }))]
    else if (k == 3) [go(t, Liquidate({ acct: a, amount: i(100), pres: "BASE", px: m }))]
    else if (k == 4) [go(t, SwapDebt({ acct: a, res: "C1", amount: i(1), pres: "BASE", px: m }))]
    else if (k == 5) [go(t, Adl({ acct: a, pair: "P1", px: m }))]
    else [by(t, keyOf(a), AddColl({ acct: a, tokens: [("BASE", i(1))], oath: { ...noOath, mode: "full", amount: frac(1, 2) } }))]
  }
  // Keepers' operations that would go through were it not for the age of a price.
  def ripe(e: int): List[Step] = {
    val k = d(e, 0, 3)
    val t1 = s.now + 1
    val t2 = t1 + 2
    val f = pickS(e, 1, ["P1", "P2", "FC1"])
    val ages = if (f == "FC1") s.ccfg.get("C1").price_age_max else if (f == "P1") dmin(s.pcfg.get("P1").price_age_max, s.ccfg.get("C2").price_age_max) else s.pcfg.get(f).price_age_max
    val least = dmin(dmin(s.ccfg.get("C1").price_age_max, s.ccfg.get("C2").price_age_max), dmin(s.pcfg.get("P1").price_age_max, s.pcfg.get("P2").price_age_max))
    // Everything is fresh but one feed, or everything is as old.
    val one = chance(e, 4, 65)
    val age = if (one) (if (chance(e, 2, 25)) s.pcfg.get("P1").price_age_max else ages) else least
    val t = t2 + dmax(0, age + pick(e, 3, [-1, -1, -1, 0, 0, 1]))
    val old = if (one) [go(t, Push({ px: px(FEEDS.foldl([], (l, x) => if (x == f) l else l.append((x, base(x), t)))), want: [] }))] else []
    val m = if (chance(e, 5, 85)) noPx else doubtful(message(t, e, 7), e, 6)
    val fresh = [admin(t1, OrAddKey({ id: 0, seed: 1 })), go(t1, Push({ px: flat(t1), want: [] }))]
    if (k == 0) fresh.concat([go(t2, Push({ px: flat(t2), want: [] }))]).concat(old).concat([go(t, SwapDebt({ acct: 2, res: pickS(e, 26, ["C1", "C2"]), amount: i(1), pres: "BASE", px: m }))])
    else if (k == 1) fresh.concat([by(t1, "K1", Order(plainOrder(3, "P1", i(50)))), go(t2, Process({ acct: 3, index: nextReq(s, 3), px: flat(t2) }))]).concat(old)
      .concat([admin(t, ExCfg({ cfg: { ...s.cfg, skew_ratio_cap: 0, adl_a: frac(1, 2), adl_offset: 0 } })), go(t, Adl({ acct: 3, pair: pickS(e, 26, ["P1", "P1", "P2"]), px: m })), admin(t, ExCfg({ cfg: s.cfg }))])
    else fresh.concat([by(t1, "K3", AddColl({ acct: 4, tokens: [("BASE", i(100))], oath: noOath })), by(t1, "K3", Order(plainOrder(4, "P1", ddiv(3 * (s.accts[4].vb + i(200)), base("P1"))))),
        go(t1 + 1, Process({ acct: 4, index: nextReq(s, 4), px: flat(t1 + 1) })), by(t1 + 1, "K3", Order(plainOrder(4, if (chance(e, 27, 50)) "P2" else "P1", unit("P2") / 10))), go(t2, Process({ acct: 4, index: nextReq(s, 4) + 1, px: flat(t2) }))])
      .concat(old)
      .concat([admin(t, PairCfg({ cfgs: [{ ...s.pcfg.get("P1"), margin_initial: i(1), margin_maintenance: i(1) }] })), go(t, Liquidate({ acct: 4, amount: i(1000), pres: "BASE", px: m })),
        admin(t, PairCfg({ cfgs: [s.pcfg.get("P1")] }))])
  }
  // Half a message: the operation must work with what was stored before.
  def part(e: int): List[Step] = {
    val t = brink(e)
    [go(t, UpdatePairs({ pairs: [pickS(e, 0, ["P1", "P2"])], px: only(pickS(e, 1, ["P1", "P2", "FC1"]), base("P1"), t) }))]
  }
  def keyring(e: int): List[Step] = {
    val c = d(e, 0, 8)
    [if (c < 2) admin(s.now, OrAddKey({ id: pick(e, 1, [0, 1, 1]), seed: pick(e, 2, [1, 2, 2]) })) else if (c < 4) admin(s.now, OrRmKey({ id: pick(e, 1, [0, 1, 5]) }))
     else if (c < 7) admin(s.now, OrRmPrice({ feed: pickS(e, 1, ["P1", "P2", "FC1", "P4", "ZZ"]) })) else by(s.now, "K1", OrAddKey({ id: 7, seed: 7 }))]
  }
  def restore(e: int): List[Step] = [admin(s.now, OrAddKey({ id: 0, seed: 1 })), go(s.now + 1, Push({ px: flat(s.now + 1), want: [] }))]
  def read(e: int): List[Step] = [go(s.now, GetPrices({ want: [pickS(e, 0, ["P1", "P2", "FC1", "P4", "FC2"]), pickS(e, 1, ["P1", "P2"])] }))]
  def ages(e: int): List[Step] =
    [admin(s.now, PairCfg({ cfgs: [{ ...plainPair("P1"), price_age_max: pick(e, 1, AGES) }] })), admin(s.now, CollCfg({ cfgs: [{ ...collCfg("C2", "P1"), price_age_max: pick(e, 2, AGES) }] }))]
  action init = { nondet e = ENTROPY.oneOf() begins(setup(e)) }
  action step = {
    nondet e = ENTROPY.oneOf()
    nondet k = 0.to(24).oneOf()
    plays(if (k < 5) push(e) else if (k < 13) use(e) else if (k == 13) part(e) else if (k < 16) keyring(e) else if (k == 16) restore(e) else if (k == 17) read(e) else if (k == 18) ages(e) else if (k == 19) restore(e) else ripe(e))
  }
}
