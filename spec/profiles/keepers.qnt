// Keeper work and its rewards, at exact times and price moves (P24, P02, P09).
module keepers {
  import gen.* from "../gen"

  pure def setup(e: int): List[Step] =
    world({ ...roomy, reward_keeper: pick(e, 1, [0, i(1), frac(25, 1), i(3)]), skew_ratio_cap: if (chance(e, 2, 50)) i(1000) else frac(1, 3) },
        [{ ...pairCfg("P1"), update_price_delta_ratio: pick(e, 3, [frac(5, 3), frac(1, 2), frac(25, 2)]), update_period_seconds: pick(e, 4, [1, 60, 3600]), price_age_max: 60 },
         { ...pairCfg("P2"), update_price_delta_ratio: pick(e, 5, [frac(5, 3), frac(1, 1)]), update_period_seconds: pick(e, 6, [10, 600]) },
         { ...plainPair("P3"), update_price_delta_ratio: frac(1, 2), update_period_seconds: 100 }], colls, i(100000))
      .concat([account("K1", [("BASE", i(5000))]), account("K2", [("BASE", i(5000)), ("C1", i(100))])])
  // A time around the end of a pair's period.
  pure def due(st: State, p: str, e: int, k: int): int = dmax(st.now, pairOf(st, p).last + (if (st.pcfg.keys().contains(p)) st.pcfg.get(p).update_period_seconds else 10) + pick(e, k, [-1, 0, 0, 1]))
  // A price around the ratio that counts as a move.
  pure def push(st: State, p: str, e: int, k: int): int = {
    val q = pairOf(st, p)
    val r = if (st.pcfg.keys().contains(p)) st.pcfg.get(p).update_price_delta_ratio else frac(1, 1)
    val off = pick(e, k, [0, 0, 10^12, -(10^12), i(1) / 10, -i(1) / 10])
    dmax(10^15, if (chance(e, k + 1, 50)) q.price + dmul(q.price, r) + off else q.price - dmul(q.price, r) + off)
  }
  pure def some(e: int, k: int): List[str] = {
    val c = d(e, k, 12)
    if (c < 3) ["P1"] else if (c == 3) ["P1", "P1"] else if (c == 4) ["P1", "P2"] else if (c == 5) ["P2", "P1", "P2"] else if (c == 6) ["P3"] else if (c < 9) ["P1", "P2", "P3"]
    else if (c == 9) [] else if (c == 10) ["P4"] else ["P2", "P3"]
  }
  def update(e: int): List[Step] = {
    val p = pickS(e, 0, ["P1", "P2", "P3"])
    val t = if (chance(e, 1, 45)) due(s, p, e, 2) else soon(s, e, 2)
    val m = if (chance(e, 3, 50)) holding(s, p, push(s, p, e, 4), t) else still(s, t)
    val l = some(e, 8)
    val again = if (chance(e, 9, 30)) [go(t, UpdatePairs({ pairs: l, px: m }))] else []
    List(go(t, UpdatePairs({ pairs: l, px: if (chance(e, 10, 90)) m else noPx }))).concat(again)
  }
  def order(e: int): List[Step] = {
    val a = d(e, 0, 2)
    val t = soon(s, e, 2)
    trade(s, t, a, pickS(e, 1, ["P1", "P2", "P3"]), amtOf(s, a, "P1", e, 3), moving(t + 1, e, 20, CALM))
  }
  // Requests processed twice, too early, too late, unknown.
  def work(e: int): List[Step] = {
    val a = d(e, 0, 2)
    val n = nextReq(s, a)
    val x = pick(e, 1, [1, 5, 100])
    val t = s.now + pick(e, 2, [0, 1, 1, 5, x - 1, x, x + 1])
    val t2 = if (chance(e, 3, 50)) t else t + 1
    [by(s.now, keyOf(a), Order({ ...plainOrder(a, "P3", i(pick(e, 4, [100, -100]))), expiry: x, status: if (chance(e, 5, 70)) ACTIVE else DORMANT, plim: if (chance(e, 6, 30)) ("gte", i(1)) else ("none", 0) })),
     go(t, Process({ acct: a, index: n, px: flat(t) })), go(t2, Process({ acct: a, index: dmax(0, n - pick(e, 7, [0, 0, 1, -1])), px: flat(t2) }))]
  }
  def threat(e: int): List[Step] = {
    val a = d(e, 0, 2)
    val t = soon(s, e, 2) + 1
    val m = moving(t, e, 20, WILD)
    val c = d(e, 1, 3)
    if (c == 0) [go(t, Liquidate({ acct: a, amount: i(1000), pres: "BASE", px: m }))]
    else if (c == 1) [go(t, Adl({ acct: a, pair: pickS(e, 3, ["P1", "P2", "P3"]), px: m }))]
    else {
      val o = posOf(s.accts[a], "P1").amt
      val x = px([("P1", moved("P1", if (o > 0) 30 else 250), t), ("P2", base("P2"), t), ("P3", base("P3"), t), ("FC1", base("FC1"), t), ("FC2", base("FC2"), t)])
      [go(t, Liquidate({ acct: a, amount: i(100000), pres: "BASE", px: x })), go(t, Liquidate({ acct: a, amount: i(100000), pres: "BASE", px: noPx }))]
    }
  }
  def reconfigure(e: int): List[Step] =
    [admin(s.now, ExCfg({ cfg: { ...s.cfg, reward_keeper: pick(e, 1, [0, i(1), frac(25, 1), i(3)]), skew_ratio_cap: pick(e, 2, [i(1000), frac(1, 3), 0]) } }))]
  action init = { nondet e = ENTROPY.oneOf() begins(setup(e)) }
  action step = {
    nondet e = ENTROPY.oneOf()
    nondet k = 0.to(15).oneOf()
    plays(if (k < 7) update(e) else if (k < 10) order(e) else if (k < 13) work(e) else if (k < 15) threat(e) else reconfigure(e))
  }
}
