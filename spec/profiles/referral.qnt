// Referrals, codes, allocations and what they promise (P18).
module referral {
  import gen.* from "../gen"

  pure val NAMES: List[str] = ["c0", "c1", "c2", "c3", "c4", "c5", "c6", "c7", "c8", "c9", "ca", "cb", "cc", "cd", "ce", "cf"]
  pure def name(e: int, k: int): str = pickS(e, k, NAMES)
  pure val RATES: List[int] = [0, 1, 5, 10, 10, 11]
  pure def setup(e: int): List[Step] =
    world({ ...roomy, collaterals_max: pick(e, 2, [1, 5, 5]) }, [plainPair("P1")], [collCfg("C1", "FC1"), collCfg("C2", "FC2")], i(10000))
      .concat([admin(START, MintRef({ fee_referral: frac(5, 2), fee_rebate: frac(5, 2), max: pick(e, 1, [3, 10, 10]) }))])
  def ref(e: int, k: int): int = if (chance(e, k, 95)) d(e, k, length(s.refs)) else 0
  pure def claimsOf(e: int, k: int): Tokens = {
    val l = [("BASE", pick(e, k, [i(5), i(10), 1, frac(1, 1), 0])), ("C1", pick(e, k + 1, [i(3), 12345])), ("C2", pick(e, k + 2, [i(1), 10^12, 10^12 + 1, 1500000000000])), ("BASE", i(1)), ("CX", i(1))]
    val c = d(e, k + 3, 20)
    if (c < 4) [] else if (c < 9) [l[0]] else if (c < 12) [l[1]] else if (c < 15) [l[2]] else if (c < 17) [l[0], l[1]] else if (c == 17) [l[0], l[3]] else if (c == 18) [l[1], l[2]] else [l[4]]
  }
  // Tokens sent along: what is needed, more, a little less, or something else.
  pure def sent(total: str -> int, e: int, k: int): Tokens = {
    val l = ["BASE", "C1", "C2", "CX"].foldl([], (x, r) => if (amountOf(total, r) > 0) x.append((r, roundUp(amountOf(total, r), unitOf(r)) + roundDown(pick(e, k, [0, 0, 0, i(1), i(100)]), unitOf(r)))) else x)
    val c = d(e, k + 1, 20)
    if (c == 0) l.foldl([], (x, y) => x.append((y._1, roundDown(dmax(0, y._2 - unitOf(y._1)), unitOf(y._1))))) else if (c == 1 and length(l) > 0) [l[0]] else if (c == 2) l.append(("C1", i(2))) else if (c == 3) l.append(("CX", i(2)))
    else if (c == 4 and length(l) > 0) [(l[0]._1, roundDown(l[0]._2 / 2, unitOf(l[0]._1))), (l[0]._1, roundUp(l[0]._2 - l[0]._2 / 2, unitOf(l[0]._1)))].concat(l.slice(1, length(l))) else l
  }
  def fakeOk(f: str): str = if (f == "two" and length(s.refs) < 2) "auth" else f
  def codes(e: int): List[Step] = {
    val one: List[(str, Tokens, int)] = [(name(e, 1), claimsOf(e, 2), 1)]
    val c = d(e, 8, 10)
    val l = if (c < 5) one else if (c < 7) one.append((name(e, 9), claimsOf(e, 10), 1)) else if (c == 7) [(name(e, 1), [], pick(e, 9, [0, 2, 3, 50]))] else if (c == 8) [(name(e, 1), claimsOf(e, 2), pick(e, 9, [0, 2]))] else one.append((name(e, 9), [], pick(e, 10, [0, 1, 2])))
    val l2 = if (length(l) == 2 and l[0]._1 == l[1]._1) one else l
    val total = l2.foldl(Map(), (m, x) => x._2.foldl(m, (n, y) => addTo(n, y._1, y._2)))
    [go(s.now, CreateCodes({ ref: ref(e, 0), tokens: sent(total, e, 14), codes: l2, fake: if (chance(e, 16, 95)) "" else fakeOk(pickS(e, 17, ["auth", "two"])) }))]
  }
  def alloc(e: int): List[Step] = {
    val claims = claimsOf(e, 2)
    val n = pick(e, 8, [0, 1, 2, 2, 3, 9])
    [admin(s.now, AddAlloc({ ref: ref(e, 0), tokens: sent(totals(claims, n), e, 10), claims: claims, count: n }))]
  }
  def fromAlloc(e: int): List[Step] = {
    val r = ref(e, 0)
    val k = dmax(0, length(s.refs[r].allocs) - 1 - d(e, 1, 2)) + (if (chance(e, 2, 5)) 1 else 0)
    val l = [name(e, 3), name(e, 4), name(e, 5)].slice(0, pick(e, 6, [0, 1, 1, 1, 2, 2, 3]))
    [go(s.now, CodesFromAlloc({ ref: r, alloc: k, codes: l, fake: if (chance(e, 7, 95)) "" else "auth" }))]
  }
  def claim(e: int): List[Step] = {
    val known = NAMES.select(x => s.codes.keys().contains(x))
    val c = if (length(known) > 0 and chance(e, 0, 85)) known[d(e, 1, length(known))] else name(e, 1)
    val one = go(s.now, CreateAccount({ rule: keyOf(d(e, 2, 4)), tokens: if (chance(e, 3, 30)) [("C1", i(1))] else [], code: c, oath: noOath }))
    if (chance(e, 4, 15)) [one, one] else [one]
  }
  def issue(e: int): List[Step] =
    if (length(s.refs) > 3) claim(e) else {
      val claims = claimsOf(e, 2)
      val n = pick(e, 8, [1, 2, 3])
      if (chance(e, 12, 50)) [admin(s.now, MintRef({ fee_referral: frac(pick(e, 9, RATES), 2), fee_rebate: frac(pick(e, 10, RATES), 2), max: pick(e, 11, [0, 2, 100]) }))]
      else [admin(s.now, MintRefAlloc({ fee_referral: frac(pick(e, 9, RATES), 2), fee_rebate: frac(pick(e, 10, RATES), 2), max: pick(e, 11, [0, 2, 100]), alloc: claims, tokens: sent(totals(claims, n), e, 13), count: n }))]
    }
  pure val BOUNDS: List[int] = [0, 1, frac(1, 1), frac(1, 1) + 1, -1, frac(5, 2)]
  def update(e: int): List[Step] =
    [admin(s.now, UpdateRef({ ref: ref(e, 0), fee_referral: if (chance(e, 1, 50)) [pick(e, 2, BOUNDS)] else [], fee_rebate: if (chance(e, 3, 50)) [pick(e, 4, BOUNDS)] else [],
      max: if (chance(e, 5, 50)) [pick(e, 6, [0, 3, 10, 1000])] else [] }))]
  def collect(e: int): List[Step] = {
    val f = if (chance(e, 1, 70)) "" else fakeOk(pickS(e, 2, ["auth", "two"]))
    [go(s.now, CollectRef({ ref: ref(e, 0), fake: f }))]
  }
  // Trading by referred accounts, so that there is something to collect.
  def trading(e: int): List[Step] = if (length(s.accts) == 0) claim(e) else {
    val a = d(e, 0, length(s.accts))
    [by(s.now, "K1", AddColl({ acct: a, tokens: [("BASE", i(100))], oath: noOath })), admin(s.now, PairCfg({ cfgs: [pairCfg("P1")] })),
     by(s.now, "K1", Order(plainOrder(a, "P1", i(1)))), go(s.now + 1, Process({ acct: a, index: nextReq(s, a), px: flat(s.now + 1) }))]
  }
  def toggle(e: int): List[Step] = if (s.ccfg.keys().contains("C2")) [admin(s.now, CollRm({ res: "C2" }))] else [admin(s.now, CollCfg({ cfgs: [collCfg("C2", "FC2")] }))]
  action init = { nondet e = ENTROPY.oneOf() begins(setup(e)) }
  action step = {
    nondet e = ENTROPY.oneOf()
    nondet k = 0.to(19).oneOf()
    plays(if (k < 4) codes(e) else if (k < 7) alloc(e) else if (k < 10) fromAlloc(e) else if (k < 14) claim(e) else if (k == 14) issue(e) else if (k == 15) update(e) else if (k == 16) collect(e)
      else if (k < 19) trading(e) else toggle(e))
  }
}
