// The services beside the exchange: environment variables (P27) and the token faucet (P28).
module side {
  import gen.* from "../gen"

  // Environment variables, set and removed in lists that name a key more than once.
  def variables(e: int): List[Step] = {
    val ks: List[str] = ["a", "b", "c", "", "a.b", "A"]
    val vs: List[str] = ["1", "2", "", "x y", "=1;", "0"]
    val puts = EnvSet({ vars: range(0, d(e, 1, 5)).foldl([], (l, n) => l.append((ks[d(e, 2 + n, 6)], vs[d(e, 8 + n, 6)]))) })
    val rm = EnvRm({ keys: range(0, d(e, 14, 4)).foldl([], (l, n) => l.append(ks[d(e, 15 + n, 6)])) })
    [{ t: s.now, signers: if (chance(e, 20, 90)) ["D"] else if (chance(e, 21, 50)) ["K1"] else [], op: if (chance(e, 22, 65)) puts else rm }]
  }
  pure val DISPENSED: List[str] = ["FBTC", "FETH", "FUSDC", "FUSDT"]
  // Amounts around what a token can represent.
  pure def amountFor(r: str, e: int, k: int): int = {
    val u = unitOf(r)
    pick(e, k, [i(1), frac(1, 3), frac(25, 1), u, u, 3 * u, u * 12345, u + 1, u / 2, 1, 0, 0, -i(1), -u, i(1000000)])
  }
  def amounts(e: int): List[Step] = {
    val r = if (chance(e, 1, 94)) pickS(e, 2, DISPENSED) else pickS(e, 2, ["BASE", "C1", "LP"])
    [go(s.now, FaucetAmount({ badge: chance(e, 3, 90), res: r, amount: amountFor(r, e, 4) }))]
  }
  // An amount that cannot be minted stops the faucet until it is corrected.
  def correct(e: int): List[Step] =
    s.faucet.amounts.keys().filter(r => not(dispensable(r, dmax(0, s.faucet.amounts.get(r)))) and s.faucet.amounts.get(r) > 0)
      .fold([go(s.now, FaucetFree)], (l, r) => List(go(s.now, FaucetAmount({ badge: true, res: r, amount: pick(e, 1, [0, -1, 0, unitOf(r)]) }))).concat(l))
  def minting(e: int): List[Step] = {
    val r = if (chance(e, 1, 92)) pickS(e, 2, DISPENSED) else pickS(e, 2, ["BASE", "C1", "LP", "PROT"])
    [go(s.now, FaucetMint({ badge: chance(e, 3, 88), res: r, amount: amountFor(r, e, 4) }))]
  }
  def users(e: int): List[Step] = [go(s.now, FaucetUser({ badge: chance(e, 1, 80), rule: pickS(e, 2, ["allow", "allow", "K1", "D", "deny", "any(K1,K2)"]) }))]
  def free(e: int): List[Step] = [{ t: s.now, signers: if (chance(e, 1, 40)) [] else [pickS(e, 2, ["K1", "K2", "D"])], op: FaucetFree }]
  action init = { nondet e = ENTROPY.oneOf() begins([go(START, FaucetFree)]) }
  action step = {
    nondet e = ENTROPY.oneOf()
    nondet k = 0.to(13).oneOf()
    plays(if (k < 4) variables(e) else if (k < 7) amounts(e) else if (k < 9) minting(e) else if (k == 9) users(e) else if (k == 10) correct(e) else free(e))
  }
}
