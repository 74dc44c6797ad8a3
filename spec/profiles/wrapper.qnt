// The token wrapper: wrapped supply, flash loans, its authority (P20).
module wrapper {
  import gen.* from "../gen"

  pure val RES: List[str] = ["C1", "C1", "C2", "C2", "C3", "CX"]
  pure val AMTS: List[int] = [0, 1, 10^12, 10^12 + 1, i(1), i(10), i(1000), 1234567890123456789012, frac(5, 1), i(100)]
  pure def setup(e: int): List[Step] =
    world(roomy, [plainPair("P1")], [collCfg("C1", "FC1")], i(1000))
      .concat([admin(START, TwInput({ res: "C1" })), admin(START, TwInput({ res: "C2" })), go(START, Wrap({ res: "C1", amount: i(pick(e, 1, [0, 100, 5000])) })),
               go(START, Wrap({ res: "C2", amount: i(pick(e, 2, [0, 7, 5000])) }))])
  pure def held(st: State, r: str): int = st.wrapper.foldl(0, (a, w) => if (w.res == r) w.amount else a)
  pure def amount(st: State, r: str, e: int, k: int): int =
    if (chance(e, k + 1, 30)) dmax(0, held(st, r) + pick(e, k, [0, 0, 1, -1, 10^12, -10^12, i(1)]))
    else if (chance(e, k + 2, 20)) held(st, r) * pick(e, k, [10, 50, 90]) / 100 else pick(e, k, AMTS)
  def wrap(e: int): List[Step] = { val r = pickS(e, 0, RES) [go(s.now, Wrap({ res: r, amount: roundDown(pick(e, 1, AMTS), unitOf(r)) }))] }
  def unwrap(e: int): List[Step] = {
    val r = pickS(e, 0, RES)
    val p = if (chance(e, 5, 80)) "BASE" else pickS(e, 6, ["C1", "C2", "CX", "PROT", "LP"])
    [go(s.now, Unwrap({ res: r, amount: roundDown(amount(s, r, e, 1), unitOf(p)), pres: p }))]
  }
  pure def plainFlash(a: int): { amount: int, repay: int, rres: str, how: str, using: str, res: str } =
    { amount: a, repay: a, rres: "BASE", how: "repay", using: "", res: "C1" }
  def flash(e: int): List[Step] = {
    val a = pick(e, 0, [0, 1, i(1), i(1000), 10^40, 123456789012345])
    val c = d(e, 1, 12)
    val f = plainFlash(if (c < 4) a else dmax(1, a))
    val o =
      if (c < 3) f
      else if (c == 3) { ...f, repay: f.amount - 1 }
      else if (c == 4) { ...f, repay: f.amount + pick(e, 2, [1, i(5)]) }
      else if (c == 5) { ...f, how: pickS(e, 2, ["keep", "burn", "bank"]) }
      else if (c == 6) { ...f, how: "fake" }
      else if (c == 7) { ...f, how: "partial" }
      else if (c == 8) { ...f, how: "partial", repay: f.amount / 2 }
      else if (c == 9) { ...f, how: "two", repay: 2 * f.amount + pick(e, 2, [0, 0, 1, -1, -(f.amount)]) }
      else if (c == 10) { ...f, rres: pickS(e, 2, ["C1", "CX", "C2"]) }
      else f
    [go(s.now, Flash({ ...o, repay: dmax(0, o.repay), amount: dmax(0, o.amount) }))]
  }
  // Borrowed tokens drain the wrapper and are wrapped again.
  def drain(e: int): List[Step] = {
    val r = pickS(e, 0, ["C1", "C1", "C2"])
    val a = roundDown(dmax(0, held(s, r) + pick(e, 1, [0, 0, -i(1), i(1)])), unitOf(r))
    [go(s.now, Flash({ ...plainFlash(a), using: "wrap_unwrap", res: r }))]
  }
  def admins(e: int): List[Step] = {
    val r = pickS(e, 0, RES)
    val c = d(e, 1, 6)
    val k = if (chance(e, 2, 85)) ["D"] else ["K1"]
    val op = if (c == 0) TwInput({ res: r }) else if (c < 4) TwWrappable({ res: r, on: chance(e, 3, 65) })
      else if (s.twauth > 0) WithdrawAuthority({ comp: "TOKEN_WRAPPER" }) else DepositAuthority({ comp: "TOKEN_WRAPPER", amount: ONE, res: "BAUTH" })
    [{ t: s.now, signers: k, op: op }]
  }
  // A token nobody has wrapped is disabled and offered for registration again.
  def again(e: int): List[Step] = {
    val r = pickS(e, 0, ["C1", "C2", "C3", "C3", "CX", "CX"])
    [admin(s.now, TwInput({ res: r })), admin(s.now, TwWrappable({ res: r, on: false })), admin(s.now, if (chance(e, 1, 70)) TwInput({ res: r }) else Noop),
     go(s.now, Wrap({ res: r, amount: roundDown(pick(e, 2, AMTS), unitOf(r)) }))]
  }
  def refill(e: int): List[Step] = [admin(s.now, if (s.twauth > 0) Noop else DepositAuthority({ comp: "TOKEN_WRAPPER", amount: ONE, res: "BAUTH" }))]
  // Wrapped tokens are money: they are deposited, and real base tokens can be unwrapped.
  def use(e: int): List[Step] = [go(s.now, if (chance(e, 0, 50)) AddLiq({ amount: i(pick(e, 1, [1, 500])), res: "BASE" }) else RemoveLiq({ amount: amountOf(s.wallet, "LP") / 3, res: "LP" }))]
  action init = { nondet e = ENTROPY.oneOf() begins(setup(e)) }
  action step = {
    nondet e = ENTROPY.oneOf()
    nondet k = 0.to(16).oneOf()
    plays(if (k < 4) wrap(e) else if (k < 8) unwrap(e) else if (k < 12) flash(e) else if (k == 12) drain(e) else if (k == 13) admins(e) else if (k == 14) refill(e) else if (k == 15) again(e) else use(e))
  }
}
