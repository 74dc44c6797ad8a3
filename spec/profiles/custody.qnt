// Deposits and withdrawals of every kind of token (P16, P03).
module custody {
  import gen.* from "../gen"

  pure val AMOUNTS: List[int] = [i(1), i(10), i(100), 12345678901234567890, 1, 10^12, 10^12 + 1, 10^12 - 1, frac(5, 2), frac(15, 3), 0]
  pure def setup(e: int): List[Step] =
    world({ ...roomy, collaterals_max: pick(e, 1, [1, 2, 3, 5]) }, [plainPair("P1")], [collCfg("C1", "FC1"), { ...collCfg("C2", "FC2"), margin: 0 }, { ...collCfg("C3", "FC1"), discount: frac(8, 1) }], i(pick(e, 2, [1, 1000, 100000])))
      .concat([account("K1", [("BASE", i(1000))]), account("K2", [("C1", i(100)), ("C3", i(5))]), account("K3", [])])
  pure def kind(e: int, k: int): str = pickS(e, k, ["BASE", "BASE", "C1", "C1", "C2", "C2", "C3", "C3", "CX", "LP"])
  pure def amount(r: str, e: int, k: int): int = {
    // what cannot be taken out of a wallet is not interesting
    val v = pick(e, k, AMOUNTS)
    roundUp(v, unitOf(r))
  }
  def deposit(e: int): List[Step] = {
    val a = d(e, 0, 3)
    val n = d(e, 1, 4)
    val l = [(kind(e, 2), amount(kind(e, 2), e, 3)), (kind(e, 4), amount(kind(e, 4), e, 5)), (kind(e, 6), amount(kind(e, 6), e, 7))].slice(0, n)
    [by(s.now, keyOf(a), AddColl({ acct: a, tokens: l, oath: noOath }))]
  }
  def open(e: int): List[Step] = if (length(s.accts) > 5) deposit(e) else
    [go(s.now, CreateAccount({ rule: "K1", tokens: [(kind(e, 2), amount(kind(e, 2), e, 3)), (kind(e, 4), amount(kind(e, 4), e, 5))].slice(0, d(e, 1, 3)), code: "", oath: noOath }))]
  def claim(a: int, e: int, k: int): (str, int) = {
    val r = kind(e, k)
    val have = if (r == "BASE") dmax(s.accts[a].vb, 0) else amountOf(s.accts[a].coll, r)
    (r, if (chance(e, k + 1, 45)) dmax(0, have * pick(e, k + 2, [10, 50, 100, 100, 101]) / 100 + pick(e, k + 3, [0, 0, 1, -1, 10^12])) else if (chance(e, k + 1, 97)) pick(e, k + 2, AMOUNTS) else -1)
  }
  def withdraw(e: int): List[Step] = {
    val a = d(e, 0, length(s.accts))
    val t = s.now
    val n = pick(e, 1, [0, 1, 1, 1, 2, 2, 3])
    val l = [claim(a, e, 2), claim(a, e, 6), claim(a, e, 10)].slice(0, n)
    [by(t, keyOf(a), RemoveReq({ acct: a, expiry: 1000, target: pickS(e, 15, ["TARGET", "TARGET", "TARGET", "WALLET", "REJECT", "POOL"]), claims: l, oath: noOath })),
     go(t + 1, Process({ acct: a, index: nextReq(s, a), px: flat(t + 1) }))]
  }
  // More than ten claims, or exactly ten.
  def many(e: int): List[Step] = {
    val a = d(e, 0, 3)
    val l = 1.to(pick(e, 1, [10, 11])).fold([], (x, n) => x.append(("BASE", n)))
    [by(s.now, keyOf(a), RemoveReq({ acct: a, expiry: 1000, target: "TARGET", claims: l, oath: noOath })), go(s.now + 1, Process({ acct: a, index: nextReq(s, a), px: flat(s.now + 1) }))]
  }
  // The account's money is not in the pool any more.
  def drain(e: int): List[Step] = [go(s.now, RemoveLiq({ amount: amountOf(s.wallet, "LP") * pick(e, 0, [50, 90, 99]) / 100, res: "LP" }))]
  def add(e: int): List[Step] = [go(s.now, AddLiq({ amount: i(pick(e, 0, [1, 100])), res: "BASE" }))]
  def order(e: int): List[Step] = { val a = d(e, 0, 3) trade(s, s.now, a, "P1", i(pick(e, 1, [1, -1, 3, -3])), moving(s.now + 1, e, 20, CALM)) }
  def configure(e: int): List[Step] =
    if (chance(e, 0, 30)) [admin(s.now, ExCfg({ cfg: { ...s.cfg, collaterals_max: pick(e, 1, [0, 1, 2, 5]) } }))]
    else if (s.ccfg.keys().contains("C3")) [admin(s.now, CollRm({ res: "C3" }))] else [admin(s.now, CollCfg({ cfgs: [collCfg("C3", "FC1")] }))]
  action init = { nondet e = ENTROPY.oneOf() begins(setup(e)) }
  action step = {
    nondet e = ENTROPY.oneOf()
    nondet k = 0.to(19).oneOf()
    plays(if (k < 6) deposit(e) else if (k == 6) open(e) else if (k < 15) withdraw(e) else if (k == 15) many(e) else if (k == 16) (if (chance(e, 9, 50)) drain(e) else add(e)) else if (k < 19) order(e) else configure(e))
  }
}
