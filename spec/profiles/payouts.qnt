// Accrued balances and their payout, also from a pool short of tokens (P22, P08, P01).
module payouts {
  import gen.* from "../gen"

  pure def setup(e: int): List[Step] =
    world({ ...roomy, skew_ratio_cap: i(1000000), fee_share_protocol: frac(pick(e, 1, [30, 10, 1]), 2), fee_share_treasury: frac(pick(e, 2, [15, 5, 0]), 2), fee_max: i(1), protocol_burn_amount: i(pick(e, 4, [1000, 2500])) },
        [{ ...plainPair("P1"), fee_0: frac(pick(e, 3, [15, 5]), 3) }], [collCfg("C1", "FC1")], i(pick(e, 5, [50, 1000, 100000])))
      .concat(referrer(1000, 500, "c0", 9))
      .concat([admin(START, MintRef({ fee_referral: frac(5, 2), fee_rebate: 0, max: 7 })), go(START, CreateCodes({ ref: 1, tokens: [], codes: [("c1", [], 3)], fake: "" })),
               referred("K1", [("BASE", i(5000))], "c0"), referred("K2", [("C1", i(5000))], "c1"), account("K3", [("C1", i(20000))]), account("K4", [("BASE", i(3000))])])
  def order(e: int): List[Step] = {
    val a = d(e, 0, 3)
    val t = soon(s, e, 2)
    trade(s, t, a, "P1", amtOf(s, a, "P1", e, 3) * pick(e, 4, [1, 1, 5]), moving(t + 1, e, 20, CALM))
  }
  def collect(e: int): List[Step] = {
    val k = d(e, 1, 9)
    val sig = if (chance(e, 5, 80)) ["D"] else if (chance(e, 5, 90)) [] else ["K1"]
    val op =
      if (k < 2) CollectTreasury
      else if (k < 4) SwapProtocol({ amount: pick(e, 2, [s.cfg.protocol_burn_amount, s.cfg.protocol_burn_amount, s.cfg.protocol_burn_amount - 1, s.cfg.protocol_burn_amount + 12345, i(5000), 0]), res: if (chance(e, 3, 88)) "PROT" else pickS(e, 4, ["BASE", "C1"]) })
      else if (k < 7) CollectRef({ ref: d(e, 2, 2), fake: if (chance(e, 3, 85)) "" else pickS(e, 4, ["auth", "two"]) })
      else CollectFeeDelegator
    [{ t: s.now, signers: sig, op: op }]
  }
  def oath(e: int): List[Step] = {
    val a = d(e, 0, 3)
    [go(s.now, Push({ px: still(s, s.now), want: [] })), by(s.now, keyOf(a), AddColl({ acct: a, tokens: [("BASE", i(1))], oath: { ...noOath, mode: "full", amount: i(pick(e, 1, [1, 10, 30])) } }))]
  }
  // The pool's tokens leave: winners and providers withdraw almost everything.
  def drain(e: int): List[Step] = {
    val a = d(e, 0, 3)
    val c = d(e, 1, 3)
    if (c == 0) [go(s.now, RemoveLiq({ amount: amountOf(s.wallet, "LP") * pick(e, 2, [50, 90, 99, 100]) / 100, res: "LP" }))]
    else {
      val v = dmax(0, dmin(s.accts[a].vb, s.pool.tokens) - pick(e, 2, [0, 0, 1, i(1)]))
      [by(s.now, keyOf(a), RemoveReq({ acct: a, expiry: 100, target: "TARGET", claims: [("BASE", v)], oath: noOath })), go(s.now + 1, Process({ acct: a, index: nextReq(s, a), px: still(s, s.now + 1) }))]
    }
  }
  // Tokens exactly equal to what is owed to somebody.
  def exact(e: int): List[Step] = {
    val k = d(e, 1, 3)
    val due = if (k == 0) s.treas else if (k == 1) s.prot else if (length(s.refs) > 0) s.refs[0].balance else 0
    val v = dmin(s.accts[3].vb, s.pool.tokens - due + pick(e, 2, [0, 1, -1]) * 10^12)
    val op = if (k == 0) CollectTreasury else if (k == 1) SwapProtocol({ amount: s.cfg.protocol_burn_amount, res: "PROT" }) else CollectRef({ ref: 0, fake: "" })
    if (v <= 0) collect(e) else
    [by(s.now, "K4", RemoveReq({ acct: 3, expiry: 100, target: "TARGET", claims: [("BASE", v)], oath: noOath })), go(s.now + 1, Process({ acct: 3, index: nextReq(s, 3), px: still(s, s.now + 1) })),
     admin(s.now + 1, op)]
  }
  def leave(n: int): Step = go(s.now, RemoveLiq({ amount: n, res: "LP" }))
  def withdraw(a: int, v: int): List[Step] =
    [by(s.now, keyOf(a), RemoveReq({ acct: a, expiry: 100, target: "TARGET", claims: [("BASE", v)], oath: noOath })),
     go(s.now + 1, Process({ acct: a, index: nextReq(s, a), px: still(s, s.now + 1) }))]
  // Everything the pool holds beyond (part of) what is owed to one party leaves; then that party collects.
  def strip(e: int): List[Step] = {
    val k = d(e, 1, 5)
    val due = if (k == 0) s.treas else if (k == 1) s.prot else if (k < 4) s.refs[0].balance else s.refs[1].balance
    val op = if (k == 0) CollectTreasury else if (k == 1) SwapProtocol({ amount: s.cfg.protocol_burn_amount, res: "PROT" }) else CollectRef({ ref: if (k < 4) 0 else 1, fake: "" })
    val left = pick(e, 2, [due, due - 1, due / 2, due * 9 / 10, due / 10, due + 1])
    val lp = amountOf(s.wallet, "LP")
    val each = dmul(ddiv(dmax(poolValue(s), 1), dmax(amountOf(s.supply, "LP"), 1)), ONE - s.cfg.fee_liquidity_remove)
    val gone = leave(dmin(lp, ddiv(dmax(0, s.pool.tokens - left), dmax(each, 1))))
    val s1 = judge(s, gone).s
    val over = dmax(0, s1.pool.tokens - left)
    val gone2 = [3, 0, 1, 2].foldl({ rest: over, steps: [] }, (acc, a) => {
      val v = dmax(0, dmin(acc.rest, s1.accts[a].vb))
      { rest: acc.rest - v, steps: if (v > 0) acc.steps.concat(withdraw(a, v)) else acc.steps }
    })
    (if (lp > 0) List(gone) else List()).concat(gone2.steps).append(admin(s.now + 1, op))
  }
  def refill(e: int): List[Step] =
    if (chance(e, 0, 50)) [go(s.now, AddLiq({ amount: i(pick(e, 1, [1, 100, 10000])), res: "BASE" }))]
    else [by(s.now, keyOf(d(e, 2, 4)), AddColl({ acct: d(e, 2, 4), tokens: [("BASE", i(pick(e, 1, [10, 1000])))], oath: noOath }))]
  def configure(e: int): List[Step] = [admin(s.now, ExCfg({ cfg: { ...s.cfg, protocol_burn_amount: i(pick(e, 1, [1000, 2500, 1001])), fee_share_protocol: frac(pick(e, 2, [0, 30, 10]), 2), fee_share_treasury: frac(pick(e, 3, [0, 15, 5]), 2) } }))]
  action init = { nondet e = ENTROPY.oneOf() begins(setup(e)) }
  action step = {
    nondet e = ENTROPY.oneOf()
    nondet k = 0.to(18).oneOf()
    plays(if (k < 6) order(e) else if (k < 10) collect(e) else if (k == 10) oath(e) else if (k == 11) drain(e) else if (k < 14) exact(e) else if (k == 14) refill(e) else if (k == 15) configure(e) else strip(e))
  }
}
