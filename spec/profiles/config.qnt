// Configuration: every bound of every field, batches, precision, read-back (P19).
module config {
  import gen.* from "../gen"

  pure def setup(e: int): List[Step] =
    world(roomy, [plainPair("P1")], [collCfg("C1", "FC1")], i(10000)).concat([account("K1", [("BASE", i(100)), ("C1", i(100))])])
  // Values at, just inside and just outside lo..hi, and some with many digits.
  pure def around(lo: int, hi: int, e: int, k: int): int = {
    val c = d(e, k, 12)
    if (c == 0) lo else if (c == 1) hi else if (c == 2) lo - 1 else if (c == 3) hi + 1 else if (c < 8) lo + (hi - lo) * d(e, k + 1, 1000) / 1000 else if (c == 8) lo + 1 else if (c == 9) hi - 1 else (lo + hi) / 2
  }
  pure val FREE: List[int] = [0, 1, -1, -1, -1, 10^18 + 1, 123456789012345678901, 1234567890, 999, 1024, 1025, 10240, 10^18, 5 * 10^17, 1023 * 10^31, 1024 * 10^31, 1025 * 10^31, 10^50, 10^34, 1024 * 10^34]
  pure def free(e: int, k: int): int = if (chance(e, k + 1, 60)) dmax(0, pick(e, k, FREE)) % 10^30 else pick(e, k, FREE)
  // One field of the exchange configuration is unusual.
  pure def oddX(c: CfgX, e: int): CfgX = {
    val k = d(e, 1, 15)
    if (k == 0) { ...c, positions_max: pick(e, 2, [0, 1, 5, 65535]) } else if (k == 1) { ...c, collaterals_max: pick(e, 2, [0, 1, 65535]) } else if (k == 2) { ...c, active_requests_max: pick(e, 2, [0, 1, 65535]) }
    else if (k == 3) { ...c, skew_ratio_cap: free(e, 2) } else if (k == 4) { ...c, adl_offset: free(e, 2) } else if (k == 5) { ...c, adl_a: free(e, 2) } else if (k == 6) { ...c, adl_b: free(e, 2) }
    else if (k == 7) { ...c, fee_liquidity_add: free(e, 2) } else if (k == 8) { ...c, fee_liquidity_remove: free(e, 2) } else if (k == 9) { ...c, fee_share_protocol: around(0, frac(3, 1), e, 2) }
    else if (k == 10) { ...c, fee_share_treasury: around(0, frac(15, 2), e, 2) } else if (k == 11) { ...c, fee_share_referral: around(0, i(1), e, 2) } else if (k == 12) { ...c, fee_max: free(e, 2) }
    else if (k == 13) { ...c, protocol_burn_amount: pick(e, 2, [i(1000), i(1000) - 1, i(1000) + 1, i(123456), i(5000)]) } else { ...c, reward_keeper: free(e, 2) }
  }
  pure def oddP(c: CfgP, e: int, j: int): CfgP = {
    val k = d(e, j, 16)
    if (k == 0) { ...c, price_age_max: pick(e, j + 1, [0, 1, 65535, 65536, 100000, -1]) } else if (k == 1) { ...c, oi_max: free(e, j + 1) } else if (k == 2) { ...c, trade_size_min: free(e, j + 1) }
    else if (k == 3) { ...c, update_price_delta_ratio: free(e, j + 1) } else if (k == 4) { ...c, update_period_seconds: pick(e, j + 1, [0, 1, 65535, 65536, -1]) }
    else if (k == 5) { ...c, margin_initial: around(0, i(1), e, j + 1) } else if (k == 6) { ...c, margin_maintenance: around(0, c.margin_initial, e, j + 1) }
    else if (k == 7) { ...c, funding_1: around(0, i(2), e, j + 1) } else if (k == 8) { ...c, funding_2: around(0, i(4), e, j + 1) } else if (k == 9) { ...c, funding_2_delta: around(0, i(10000), e, j + 1) }
    else if (k == 10) { ...c, funding_2_decay: free(e, j + 1) } else if (k == 11) { ...c, funding_pool_0: around(0, i(1), e, j + 1) } else if (k == 12) { ...c, funding_pool_1: around(0, i(2), e, j + 1) }
    else if (k == 13) { ...c, funding_share: around(0, frac(1, 1), e, j + 1) } else if (k == 14) { ...c, fee_0: around(0, frac(15, 3), e, j + 1) } else { ...c, fee_1: around(0, frac(1, 6), e, j + 1) }
  }
  pure def oddC(c: CfgC, e: int, j: int): CfgC = {
    val k = d(e, j, 3)
    if (k == 0) { ...c, price_age_max: pick(e, j + 1, [0, 1, 65535, 65536, -1]) } else if (k == 1) { ...c, discount: around(frac(8, 1), i(1), e, j + 1) } else { ...c, margin: around(0, frac(1, 1), e, j + 1) }
  }
  // Everything unusual, but valid.
  pure def validPair(p: str, e: int, j: int): CfgP = { ...pairCfg(p), price_age_max: 1 + d(e, j, 1000), trade_size_min: d(e, j + 1, 1000) * 1234567, margin_initial: frac(d(e, j + 2, 900) + 100, 3), margin_maintenance: frac(d(e, j + 3, 100), 3),
    funding_1: d(e, j + 4, 1000) * 2 * 10^15, funding_2: d(e, j + 5, 1000) * 4 * 10^15, funding_share: d(e, j + 6, 1000) * 10^14, fee_0: d(e, j + 7, 1000) * 15 * 10^12, fee_1: d(e, j + 8, 1000) * 10^8, update_period_seconds: 1 + d(e, j + 9, 1000) * 65 }
  def exchange(e: int): List[Step] =
    0.to(2).fold([], (l, n) => { val f = e / 1000^(n * 10) l.append({ t: s.now, signers: if (chance(f, 9, 92)) ["D"] else ["K1"], op: ExCfg({ cfg: oddX(s.cfg, f) }) }) })
  def pairBatch(e: int, f: int): List[Step] = {
    val known = s.pcfg.keys()
    val p = pickS(e, 0, PAIRS)
    val q = pickS(e, 1, PAIRS)
    val c1 = if (chance(e, 2, 60)) oddP(if (known.contains(p)) s.pcfg.get(p) else pairCfg(p), e, 4) else validPair(p, e, 10)
    val c2 = if (chance(e, 3, 30)) oddP(pairCfg(q), e, 7) else validPair(q, e, 20)
    val c3 = oddP(if (known.contains(q)) s.pcfg.get(q) else pairCfg(q), f, 4)
    [admin(s.now, PairCfg({ cfgs: if (chance(f, 0, 35)) [c1, c2] else if (chance(f, 1, 3)) [] else [c1] })), admin(s.now, PairCfg({ cfgs: [c3] })),
     admin(s.now, PairCfg({ cfgs: [oddP(c3, f, 7)] }))]
  }
  def collBatch(e: int): List[Step] = {
    val r = pickS(e, 0, ["C1", "C2", "C3"])
    val q = pickS(e, 1, ["C1", "C2", "C3"])
    val f = pickS(e, 2, ["FC1", "FC2", "P1"])
    val c1 = if (chance(e, 3, 70)) oddC(collCfg(r, f), e, 4) else collCfg(r, f)
    [admin(s.now, CollCfg({ cfgs: if (chance(e, 6, 30)) [c1, oddC(collCfg(q, "FC1"), e, 7)] else [c1] })), admin(s.now, CollCfg({ cfgs: [oddC(collCfg(r, f), e, 11)] }))]
  }
  def removal(e: int): List[Step] = 
    if (chance(e, 1, 25)) [{ t: s.now, signers: if (chance(e, 2, 80)) ["D"] else ["K1"], op: SignalUpgrade({ comp: pickS(e, 3, ["EXCHANGE", "ORACLE", "POOL"]) }) }]
    else [admin(s.now, CollRm({ res: pickS(e, 0, ["C1", "C2", "C3", "CX"]) }))]
  // Configured collateral is accepted, removed collateral is not and counts for nothing.
  def effect(e: int): List[Step] = {
    val t = s.now + 1
    val k = d(e, 0, 3)
    if (k == 0) [by(s.now, "K1", AddColl({ acct: 0, tokens: [(pickS(e, 1, ["C1", "C2", "C3", "CX"]), i(1))], oath: noOath }))]
    else if (k == 1) [by(s.now, "K1", RemoveReq({ acct: 0, expiry: 100, target: "TARGET", claims: [(pickS(e, 1, ["C1", "C2"]), i(1))], oath: noOath })), go(t, Process({ acct: 0, index: nextReq(s, 0), px: flat(t) }))]
    else trade(s, s.now, 0, pickS(e, 2, ["P1", "P2"]), pick(e, 3, [unit("P1"), -unit("P1"), unit("P1") / 2]), flat(t))
  }
  action init = { nondet e = ENTROPY.oneOf() begins(setup(e)) }
  action step = {
    nondet e = ENTROPY.oneOf()
    nondet f = ENTROPY.oneOf()
    nondet k = 0.to(15).oneOf()
    plays(if (k < 5) exchange(e) else if (k < 10) pairBatch(e, f) else if (k < 13) collBatch(e) else if (k == 13) removal(e) else effect(e))
  }
}
