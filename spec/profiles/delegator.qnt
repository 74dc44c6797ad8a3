// Delegated network fees: locking, owing, charging, escaping (P21).
module delegator {
  import gen.* from "../gen"

  pure val LOCKS: List[int] = [0, 1, i(1), i(3), i(10), i(20), frac(5, 1), 7777777777777777777]
  pure def setup(e: int): List[Step] =
    world(roomy, [plainPair("P1"), plainPair("P2")], [collCfg("C1", "FC1")], i(100000))
      .concat([admin(START, FdCfg({ max_lock: [pick(e, 1, [i(3), i(3), frac(1, 1), i(1000), 0])], mult: [pick(e, 2, [frac(15, 1), i(1), i(10), frac(1, 1), 0])], cont: [] })),
               account("K1", [("BASE", i(1000))]), account("K2", [("BASE", i(pick(e, 3, [1, 50])))]), account("K3", [("C1", i(100))])])
  // The largest lock whose obligation still fits, give or take.
  pure def edge(st: State, off: int): int = if (st.fd.mult == 0) i(1) else dmax(0, ddiv(st.fd.max_lock, ddiv(st.fd.mult, USD_XRD)) + off)
  def amount(e: int, k: int): int = if (chance(e, k, 30)) dmin(i(400), edge(s, pick(e, k + 1, [0, 10^9, -(10^9), i(1), -i(1), -i(2)]))) else pick(e, k + 1, LOCKS)
  def oath(e: int, k: int): Oath = {
    val v = amount(e, k)
    val owes = oathValue(s, { ...noOath, mode: "full", amount: v })
    val c = d(e, k + 2, 20)
    if (c < 13) { ...noOath, mode: "full", amount: v }
    else if (c < 15) { ...noOath, mode: "double", amount: v }
    else if (c == 15) { ...noOath, mode: "part", amount: v, part: owes }
    else if (c < 18) { ...noOath, mode: "part", amount: v, part: dmax(0, pick(e, k + 3, [owes / 2, owes - 1, 0])) }
    else { ...noOath, mode: "fake", amount: i(1), res: pickS(e, k + 3, ["BASE", "C1", "XRD"]) }
  }
  def charge(e: int): List[Step] = {
    val a = d(e, 0, 3)
    val o = oath(e, 10)
    val k = d(e, 1, 12)
    val t = soon(s, e, 2)
    val n = length(s.accts[a].reqs)
    val op =
      if (k < 2) AddColl({ acct: a, tokens: if (chance(e, 3, 50)) [("BASE", i(10))] else [("C1", i(5))], oath: o })
      else if (k == 2) Cancel({ acct: a, indexes: [], oath: o })
      else if (k == 3) RemoveReq({ acct: a, expiry: 100, target: "TARGET", claims: [("BASE", i(1))], oath: o })
      else if (k < 6) Order({ ...plainOrder(a, pickS(e, 4, ["P1", "P2"]), i(pick(e, 5, [1, -1]))), oath: o })
      else if (k == 6) Tpsl({ delay: 0, expiry: 100, acct: a, pair: "P1", amt: i(1), reduce: false, plim: ("none", 0), slip: ("none", 0), tp: [i(120)], sl: [i(90)], oath: o })
      else if (k == 7) SetAuth({ acct: a, level: 1 + d(e, 4, 3), rule: keyOf(a), oath: o })
      else if (k == 8) AddRule({ acct: a, level: 1 + d(e, 4, 3), rule: keyOf(a), oath: o })
      else if (k == 9 and length(s.accts) < 5) CreateAccount({ rule: "K1", tokens: [("BASE", i(pick(e, 4, [0, 1, 5, 100])))], code: "", oath: o })
      else if (k == 10) Cancel({ acct: a, indexes: if (n > 0) [n - 1] else [], oath: o })
      else AddColl({ acct: a, tokens: [], oath: o })
    [go(t, Push({ px: still(s, t), want: [] })), { t: t, signers: if (chance(e, 6, 92)) [keyOf(a)] else ["K4"], op: op }]
  }
  def escape(e: int): List[Step] =
    [by(s.now, "K1", FdEscape({ amount: amount(e, 1), how: pickS(e, 0, ["none", "burn", "keep", "collateral"]), acct: 0 }))]
  def order(e: int): List[Step] = { val a = d(e, 0, 3) trade(s, s.now, a, pickS(e, 1, ["P1", "P2"]), i(pick(e, 2, [1, -1, 2])), moving(s.now + 1, e, 20, CALM)) }
  // Before the fee is charged, the price the margin check will use has moved.
  def move(e: int): List[Step] = { val t = soon(s, e, 0) + 1 [go(t, Push({ px: moving(t, e, 20, WILD), want: [] }))] }
  def admins(e: int): List[Step] = {
    val c = d(e, 0, 8)
    val k = if (chance(e, 1, 80)) ["D"] else ["K1"]
    val op =
      if (c < 3) FdCfg({ max_lock: if (chance(e, 2, 60)) [pick(e, 3, [i(3), frac(1, 1), i(1000), 0, -1])] else [], mult: if (chance(e, 4, 40)) [pick(e, 5, [frac(15, 1), i(1), i(10), 0, -1])] else [], cont: [] })
      else if (c == 3) FdWithdraw({ amount: pick(e, 2, [0, i(1), i(100), i(1000000), -1]) })
      else if (c == 4) FdDeposit({ amount: pick(e, 2, [0, i(1), i(500)]) })
      else if (c == 5) FdCfg({ max_lock: [], mult: [], cont: [chance(e, 2, 50)] })
      else CollectFeeDelegator
    [{ t: s.now, signers: k, op: op }]
  }
  action init = { nondet e = ENTROPY.oneOf() begins(setup(e)) }
  action step = {
    nondet e = ENTROPY.oneOf()
    nondet k = 0.to(15).oneOf()
    plays(if (k < 9) charge(e) else if (k < 11) escape(e) else if (k == 11) order(e) else if (k == 12) move(e) else if (k < 15) admins(e)
      else [by(s.now, keyOf(d(e, 0, 3)), AddColl({ acct: d(e, 0, 3), tokens: [("BASE", i(pick(e, 1, [1, 20])))], oath: noOath }))])
  }
}
