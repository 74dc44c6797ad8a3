// Skew cap, open-interest and position limits, hit exactly (P06).
module caps {
  import gen.* from "../gen"

  pure def setup(e: int): List[Step] =
    world({ ...defaultCfg, skew_ratio_cap: frac(pick(e, 1, [10, 20, 50]), 2), positions_max: pick(e, 2, [2, 3, 30]), fee_liquidity_add: 0, fee_liquidity_remove: if (chance(e, 4, 50)) 0 else frac(1, 2) },
        [plainPair("P1"), plainPair("P2"), { ...plainPair("P3"), oi_max: i(100000) }], [], i(pick(e, 3, [10000, 50000])))
      .concat([account("K1", [("BASE", i(100000))]), account("K2", [("BASE", i(100000))]), account("K3", [("BASE", i(100000))])])

  pure val OFF: List[int] = [0, 0, 0, 10^12, -10^12, 10^15, -10^15]
  def order(e: int): List[Step] = {
    val t = soon(s, e, 2)
    val a = d(e, 0, 3)
    val p = pickS(e, 1, ["P1", "P2", "P3"])
    trade(s, t, a, p, amtOf(s, a, p, e, 3), if (chance(e, 4, 70)) still(s, t + 1) else moving(t + 1, e, 20, WILD))
  }
  // The trade after which the skew ratio is exactly the cap, or a hair off.
  def aimedSkew(e: int): List[Step] = {
    val t = soon(s, e, 2)
    val a = d(e, 0, 3)
    val p = pickS(e, 1, ["P1", "P2", "P3"])
    val st = updatePair(seenAt(s, t + 1, flat(t + 1)), p).s
    val q = pairOf(st, p)
    val net = dmul(q.oiL - q.oiS, base(p))
    val room = dmul(s.cfg.skew_ratio_cap, dmax(poolValue(st), ONE)) - (st.pool.skew - abs(net)) + pick(e, 3, OFF)
    val target = if (chance(e, 4, 50)) room else -room
    trade(s, t, a, p, ddiv(target - net, base(p)), flat(t + 1))
  }
  // A flip that keeps the size of the skew or changes it only slightly.
  def mirrorSkew(e: int): List[Step] = {
    val t = soon(s, e, 2)
    val a = d(e, 0, 3)
    val p = pickS(e, 1, ["P1", "P2", "P3"])
    val q = pairOf(s, p)
    trade(s, t, a, p, -2 * (q.oiL - q.oiS) + pick(e, 3, OFF), still(s, t + 1))
  }
  def aimedOi(e: int): List[Step] = {
    val t = soon(s, e, 2)
    val a = d(e, 0, 3)
    val p = pickS(e, 1, ["P1", "P2", "P3"])
    val q = pairOf(s, p)
    val o = posOf(s.accts[a], p).amt
    val long = if (o == 0 or chance(e, 5, 30)) chance(e, 4, 50) else o > 0
    val oi = if (long) q.oiL else q.oiS
    val most = dfloat(oi + unit(p) * pick(e, 6, [1, 2, 3])).v
    val open = most - oi + pick(e, 3, OFF)
    val flips = (o > 0 and not(long)) or (o < 0 and long)
    sandwich([admin(t, ExCfg({ cfg: { ...s.cfg, skew_ratio_cap: i(1000) } })), admin(t, PairCfg({ cfgs: [{ ...s.pcfg.get(p), oi_max: dmax(0, most) }] }))],
      trade(s, t, a, p, (if (long) open else -open) + (if (flips) -o else 0), still(s, t + 1)),
      [admin(t + 1, ExCfg({ cfg: s.cfg })), admin(t + 1, PairCfg({ cfgs: [{ ...s.pcfg.get(p), oi_max: pick(e, 7, [0, i(1000000000), i(1000000000), i(1000000000)]) }] }))])
  }
  // The share removal after which the ratio is exactly the cap.
  def aimedRemoval(e: int): List[Step] = {
    val t = soon(s, e, 2)
    val v = dmax(poolValue(s), 0)
    val keep = ddiv(s.pool.skew, s.cfg.skew_ratio_cap) + pick(e, 3, OFF)
    val lp = if (v == 0 or s.supply.get("LP") == 0) 0 else dmax(0, dmul(v - keep, ddiv(s.supply.get("LP"), v)))
    [go(t, RemoveLiq({ amount: dmin(lp, amountOf(s.wallet, "LP")), res: "LP" }))]
  }
  def liq(e: int): List[Step] = {
    val t = soon(s, e, 2)
    if (chance(e, 3, 50)) [go(t, AddLiq({ amount: i(pick(e, 4, [1000, 10000])), res: "BASE" }))]
    else [go(t, RemoveLiq({ amount: amountOf(s.wallet, "LP") * pick(e, 4, [1, 30, 60, 90, 100]) / 100, res: "LP" }))]
  }
  // Skew cap lowered below the present ratio: only reducing trades pass.
  def lowCap(e: int): List[Step] = {
    val t = soon(s, e, 2)
    val a = d(e, 0, 3)
    val p = pickS(e, 1, ["P1", "P2", "P3"])
    val low = { ...s.cfg, skew_ratio_cap: frac(1, 3) }
    val mid = trade(s, t, a, p, amtOf(s, a, p, e, 3), still(s, t + 1))
    sandwich([admin(t, ExCfg({ cfg: low }))], mid, [admin(t + 1, ExCfg({ cfg: s.cfg }))])
  }
  action init = { nondet e = ENTROPY.oneOf() begins(setup(e)) }
  action step = {
    nondet e = ENTROPY.oneOf()
    nondet k = 0.to(11).oneOf()
    plays(if (k < 3) order(e) else if (k < 5) aimedSkew(e) else if (k == 5) mirrorSkew(e) else if (k == 6) lowCap(e) else if (k < 9) aimedOi(e) else if (k < 11) aimedRemoval(e) else liq(e))
  }
}
