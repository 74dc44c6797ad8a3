// Auto-deleveraging around the skew cap and the profit threshold (P05).
module adl {
  import gen.* from "../gen"

  pure def setup(e: int): List[Step] = {
    val plain = chance(e, 1, 60)
    val f = if (plain) plainPair("P1") else pairCfg("P1")
    val g = if (plain) plainPair("P2") else pairCfg("P2")
    world({ ...roomy, adl_offset: frac(pick(e, 2, [0, 1, 5, 50]), 2), adl_a: frac(pick(e, 3, [1, 7, 50]), 2), adl_b: frac(pick(e, 4, [0, 1, 7]), 2) }, [f, g], [collCfg("C1", "FC1")], i(pick(e, 5, [10000, 20000])))
      .concat(referrer(500, 1000, "c0", 5))
      .concat([account("K1", [("BASE", i(10000))]), referred("K2", [("BASE", i(10000))], "c0"), account("K3", [("BASE", i(5000)), ("C1", i(5000))])])
  }
  pure val CAPS: List[int] = [5, 10, 20, 50]
  def order(e: int): List[Step] = {
    val a = d(e, 0, 3)
    val p = pickS(e, 1, ["P1", "P2"])
    val t = soon(s, e, 2)
    trade(s, t, a, p, unit(p) * pick(e, 3, [1, 2, 5, 10, -1, -2, -5, -10]), moving(t + 1, e, 20, CALM))
  }
  // Cap below, at or above the present ratio, then an attempt.
  def capped(e: int): List[Step] = {
    val t = soon(s, e, 2) + 1
    val a = d(e, 0, 3)
    val p = pickS(e, 1, ["P1", "P2"])
    val m = moving(t, e, 20, WILD)
    val c = pick(e, 3, [dfloat(skewRatio(s)).v, frac(pick(e, 4, CAPS), 2), frac(pick(e, 4, CAPS), 2), frac(1, 2)])
    [admin(t, ExCfg({ cfg: { ...s.cfg, skew_ratio_cap: c, adl_offset: pick(e, 5, [s.cfg.adl_offset, dfloat(skewRatio(s)).v]) } })),
     go(t, Adl({ acct: a, pair: p, px: if (chance(e, 6, 60)) m else still(s, t) })),
     admin(t, ExCfg({ cfg: { ...s.cfg, skew_ratio_cap: i(1000) } }))]
  }
  // Exactly at the cap: the cap is set to what the ratio will be after the price message.
  def atCap(e: int): List[Step] = {
    val t = soon(s, e, 2) + 1
    val a = d(e, 0, 3)
    val p = pickS(e, 1, ["P1", "P2"])
    val m = moving(t, e, 20, [50, 80, 100, 125, 200])
    val st = settleFunding(updatePair(seenAt(s, t, m), p).s, a, p)
    val r = dfloat(skewRatio(st)).v
    [admin(t, ExCfg({ cfg: { ...s.cfg, skew_ratio_cap: dmax(0, pick(e, 3, [r, r, r - frac(1, 3), frac(1, 2)])), adl_offset: pick(e, 4, [r, s.cfg.adl_offset]) } })),
     go(t, Adl({ acct: a, pair: p, px: m })),
     admin(t, ExCfg({ cfg: { ...s.cfg, skew_ratio_cap: i(1000) } }))]
  }
  // A winning position whose close turns the pair's skew into its mirror image (or nearly so).
  def mirrored(e: int): List[Step] = {
    val a = d(e, 0, 3)
    val p = pickS(e, 1, ["P1", "P2"])
    val q = pairOf(s, p)
    val x = posOf(s.accts[a], p).amt
    val t = soon(s, e, 2)
    val goal = -2 * (q.oiL - q.oiS - x) + pick(e, 3, [0, 0, 0, unit(p), -unit(p), 10^10, -(10^10)])
    val m = holding(s, p, moved(p, if (goal > 0) pick(e, 4, [110, 125, 200]) else pick(e, 4, [50, 80, 90])), t + 1)
    trade(s, t, a, p, goal - x, flat(t + 1)).concat([
      admin(t + 1, ExCfg({ cfg: { ...s.cfg, skew_ratio_cap: 0, adl_offset: 0, adl_a: i(1), adl_b: i(1) } })),
      go(t + 1, Adl({ acct: a, pair: p, px: m })),
      admin(t + 1, ExCfg({ cfg: { ...s.cfg, skew_ratio_cap: i(1000) } }))])
  }
  def odd(e: int): List[Step] = {
    val t = soon(s, e, 2) + 1
    [admin(t, ExCfg({ cfg: { ...s.cfg, skew_ratio_cap: frac(1, 3) } })),
     go(t, Adl({ acct: pick(e, 0, [0, 1, 2, 7]), pair: pickS(e, 1, ["P1", "P2", "P4"]), px: if (chance(e, 3, 70)) moving(t, e, 20, CALM) else noPx })),
     admin(t, ExCfg({ cfg: { ...s.cfg, skew_ratio_cap: i(1000) } }))]
  }
  def pull(e: int): List[Step] = {
    val t = soon(s, e, 2)
    [go(t, RemoveLiq({ amount: amountOf(s.wallet, "LP") * pick(e, 3, [10, 30]) / 100, res: "LP" }))]
  }
  def update(e: int): List[Step] = {
    val t = later(s, e, 2)
    [go(t, UpdatePairs({ pairs: ["P1", "P2"], px: moving(t, e, 20, WILD) }))]
  }
  action init = { nondet e = ENTROPY.oneOf() begins(setup(e)) }
  action step = {
    nondet e = ENTROPY.oneOf()
    nondet k = 0.to(13).oneOf()
    plays(if (k < 4) order(e) else if (k < 7) capped(e) else if (k < 9) atCap(e) else if (k == 9) odd(e) else if (k == 10) pull(e) else if (k == 11) update(e) else mirrored(e))
  }
}
