// Everything at once, over one world with default-like parameters (all properties).
module mixed {
  import gen.* from "../gen"

  pure def setup(e: int): List[Step] =
    world({ ...defaultCfg, skew_ratio_cap: frac(pick(e, 1, [15, 50, 500]), 2), positions_max: 3, collaterals_max: 3, active_requests_max: 6 },
        [{ ...pairCfg("P1"), funding_2: i(pick(e, 2, [0, 1, 4])) }, { ...pairCfg("P2"), fee_1: 10^9 }, { ...pairCfg("P3"), margin_initial: frac(1, 1), margin_maintenance: frac(5, 2) }],
        [collCfg("C1", "FC1"), { ...collCfg("C2", "FC2"), margin: frac(5, 2) }], i(pick(e, 3, [5000, 50000, 500000])))
      .concat(referrer(800, 400, "c0", 4))
      .concat([account("K1", [("BASE", i(3000))]), referred("K2", [("BASE", i(1000)), ("C1", i(2000))], "c0"), account("K3", [("C2", i(150))]), account("any(K1,K2)", [("BASE", i(800)), ("C1", i(300))])])
  pure def signer(st: State, a: int): str = if (a < 3) keyOf(a) else "K1"
  pure def anyPair(e: int, k: int): str = pickS(e, k, ["P1", "P1", "P2", "P3"])
  def acct(e: int, k: int): int = d(e, k, length(s.accts))
  def order(e: int): List[Step] = {
    val a = acct(e, 0)
    val p = anyPair(e, 1)
    val t = if (chance(e, 5, 80)) soon(s, e, 2) else later(s, e, 2)
    val o = { ...plainOrder(a, p, amtOf(s, a, p, e, 3)), reduce: chance(e, 4, 15), plim: limitOf(p, e, 6), slip: slipOf(e, 7), delay: pick(e, 8, [0, 0, 0, 1, 10]), expiry: pick(e, 9, [1000000, 1000000, 1, 60]) }
    [by(t, signer(s, a), Order(o)), go(t + 1, Process({ acct: a, index: nextReq(s, a), px: moving(t + 1, e, 20, CALM) }))]
  }
  def bracket(e: int): List[Step] = {
    val a = acct(e, 0)
    val p = anyPair(e, 1)
    val b = lastPrice(s, p)
    val v = pick(e, 2, [1, -1, 2, -3]) * unit(p)
    val n = nextReq(s, a)
    val t = soon(s, e, 3)
    [by(t, signer(s, a), Tpsl({ delay: 0, expiry: 100000, acct: a, pair: p, amt: v, reduce: false, plim: ("none", 0), slip: ("none", 0),
        tp: if (chance(e, 4, 80)) [b * (if (v > 0) 105 else 95) / 100] else [], sl: if (chance(e, 5, 80)) [b * (if (v > 0) 97 else 103) / 100] else [], oath: noOath })),
     go(t + 1, Process({ acct: a, index: n, px: still(s, t + 1) }))]
  }
  def poke(e: int): List[Step] = {
    val a = acct(e, 0)
    val t = soon(s, e, 2) + 1
    val n = nextReq(s, a)
    [go(t, Process({ acct: a, index: if (n == 0) 0 else d(e, 3, n), px: moving(t, e, 20, WILD) }))]
  }
  def cancel(e: int): List[Step] = { val a = acct(e, 0) val n = nextReq(s, a) [by(s.now, signer(s, a), Cancel({ acct: a, indexes: if (n == 0) [] else [n - 1 - d(e, 1, dmin(n, 3))], oath: noOath }))] }
  def money(e: int): List[Step] = {
    val a = acct(e, 0)
    val c = d(e, 1, 3)
    val t = soon(s, e, 2)
    if (c == 0) [by(t, signer(s, a), AddColl({ acct: a, tokens: [(pickS(e, 3, ["BASE", "C1", "C2"]), i(pick(e, 4, [10, 100, 1000])))], oath: noOath }))]
    else {
      val r = pickS(e, 3, ["BASE", "BASE", "C1", "C2"])
      val have = if (r == "BASE") dmax(0, s.accts[a].vb) else amountOf(s.accts[a].coll, r)
      [by(t, signer(s, a), RemoveReq({ acct: a, expiry: 1000, target: "TARGET", claims: [(r, have * pick(e, 4, [5, 20, 60, 100]) / 100)], oath: noOath })),
       go(t + 1, Process({ acct: a, index: nextReq(s, a), px: moving(t + 1, e, 20, CALM) }))]
    }
  }
  def keeper(e: int): List[Step] = {
    val a = acct(e, 0)
    val t = soon(s, e, 2) + 1
    val m = moving(t, e, 20, WILD)
    val c = d(e, 1, 6)
    if (c < 2) [go(t, Liquidate({ acct: a, amount: i(10000), pres: "BASE", px: m }))]
    else if (c == 2) [go(t, Adl({ acct: a, pair: anyPair(e, 3), px: m }))]
    else if (c == 3) [go(t, SwapDebt({ acct: a, res: pickS(e, 3, ["C1", "C2"]), amount: i(pick(e, 4, [1, 100, 5000])), pres: "BASE", px: m }))]
    else { val t2 = later(s, e, 2) [go(t2, UpdatePairs({ pairs: ["P1", "P2", "P3"], px: moving(t2, e, 20, CALM) }))] }
  }
  def liquidity(e: int): List[Step] =
    if (chance(e, 0, 50)) [go(s.now, AddLiq({ amount: i(pick(e, 1, [1, 1000, 20000])), res: "BASE" }))] else [go(s.now, RemoveLiq({ amount: amountOf(s.wallet, "LP") * pick(e, 1, [1, 10, 50]) / 100, res: "LP" }))]
  def owners(e: int): List[Step] = {
    val c = d(e, 0, 8)
    if (c == 0) [admin(s.now, CollectTreasury)] else if (c == 1) [go(s.now, CollectRef({ ref: 0, fake: "" }))]
    else if (c == 2) [go(s.now, SwapProtocol({ amount: i(10000), res: "PROT" }))]
    else if (c == 3) [admin(s.now, ExCfg({ cfg: { ...s.cfg, skew_ratio_cap: frac(pick(e, 1, [15, 50, 500, 1]), 2) } }))]
    else if (c == 4) [admin(s.now, PairCfg({ cfgs: [{ ...pairCfg("P1"), oi_max: i(pick(e, 1, [10, 100, 1000])), funding_2: i(pick(e, 2, [0, 1, 4])) }] }))]
    else if (c == 5) { val a = acct(e, 1) [by(s.now, signer(s, a), SetAuth({ acct: a, level: 1 + d(e, 2, 3), rule: signer(s, a), oath: noOath }))] }
    else if (c == 6) { val a = acct(e, 1) [go(s.now, Push({ px: still(s, s.now), want: [] })), by(s.now, signer(s, a), AddColl({ acct: a, tokens: [("BASE", i(5))], oath: { ...noOath, mode: "full", amount: i(2) } }))] }
    else [go(s.now, if (length(s.accts) < 6) CreateAccount({ rule: "K2", tokens: [("BASE", i(500))], code: if (chance(e, 1, 50)) "c0" else "", oath: noOath }) else Noop)]
  }
  action init = { nondet e = ENTROPY.oneOf() begins(setup(e)) }
  action step = {
    nondet e = ENTROPY.oneOf()
    nondet k = 0.to(19).oneOf()
    plays(if (k < 7) order(e) else if (k < 9) bracket(e) else if (k == 9) poke(e) else if (k == 10) cancel(e) else if (k < 14) money(e) else if (k < 17) keeper(e) else if (k == 17) liquidity(e) else owners(e))
  }
}
