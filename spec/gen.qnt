// Choices the profiles are made of. All randomness is one nondeterministic number e per step,
// read as digits in base 1000, so that a step can aim at thresholds of the current state.
module gen {
  import machine.* from "./machine"
  export machine.*

  pure val ENTROPY: Set[int] = 0.to(10^120)
  pure def d(e: int, k: int, n: int): int = ((e / 1000^k) % 1000) % n
  pure def pick(e: int, k: int, l: List[int]): int = l[d(e, k, length(l))]
  pure def pickS(e: int, k: int, l: List[str]): str = l[d(e, k, length(l))]
  pure def chance(e: int, k: int, percent: int): bool = (e / 1000^k) % 1000 < percent * 10

  pure def go(t: int, op: Op): Step = { t: t, signers: [], op: op }
  pure def by(t: int, k: str, op: Op): Step = { t: t, signers: [k], op: op }
  pure def admin(t: int, op: Op): Step = { t: t, signers: ["D"], op: op }
  pure def sandwich(x: List[Step], y: List[Step], z: List[Step]): List[Step] = x.concat(y).concat(z)
  pure val KEYS: List[str] = ["K1", "K2", "K3", "K4"]
  pure def keyOf(a: int): str = if (a >= 0 and a < 4) KEYS[a] else "K1"

  // ---- Time ----
  pure val SHORT: List[int] = [0, 1, 1, 2, 3, 5, 10]
  pure val LONG: List[int] = [0, 1, 1, 2, 5, 30, 59, 60, 61, 600, 3599, 3600, 3601, 7200, 86400, 864000, 2592000]
  pure def later(st: State, e: int, k: int): int = st.now + pick(e, k, LONG)
  pure def soon(st: State, e: int, k: int): int = st.now + pick(e, k, SHORT)

  // ---- Prices ----
  pure val FEEDS: List[str] = ["P1", "P2", "P3", "FC1", "FC2"]
  pure def base(p: str): int =
    if (p == "P1") i(100) else if (p == "P2") i(2000) else if (p == "P3") frac(5, 2) else if (p == "P4") i(1)
    else if (p == "FC1") i(1) else i(20)
  pure val CALM: List[int] = [98, 99, 100, 100, 100, 100, 101, 102]
  pure val WILD: List[int] = [50, 80, 90, 95, 98, 99, 100, 100, 100, 101, 102, 105, 110, 125, 200]
  pure def moved(p: str, m: int): int = base(p) * m / 100
  pure def px(l: List[(str, int, int)]): Px = { on: true, prices: l, key: 0, seed: 1, tamper: "" }
  pure def flat(t: int): Px = px(FEEDS.concat(["P4"]).foldl([], (l, p) => l.append((p, base(p), t))))
  pure def moving(t: int, e: int, k: int, moves: List[int]): Px =
    px([("P1", moved("P1", pick(e, k, moves)), t), ("P2", moved("P2", pick(e, k + 1, moves)), t), ("P3", moved("P3", pick(e, k + 2, moves)), t),
        ("FC1", moved("FC1", pick(e, k + 3, moves)), t), ("FC2", moved("FC2", pick(e, k + 4, moves)), t), ("P4", base("P4"), t)])
  pure def only(p: str, pr: int, t: int): Px = px([(p, pr, t)])
  // One pair at a chosen price, all others where they last were (or at their base).
  pure def holding(st: State, p: str, pr: int, t: int): Px =
    px(FEEDS.concat(["P4"]).foldl([], (l, f) => l.append((f, if (f == p) pr else if (st.prices.keys().contains(f)) st.prices.get(f)._1 else base(f), t))))
  pure def still(st: State, t: int): Px = holding(st, "", 0, t)
  pure def lastPrice(st: State, p: str): int = if (st.prices.keys().contains(p)) st.prices.get(p)._1 else base(p)
  // The state after a clock move and a price message.
  pure def seenAt(st: State, t: int, m: Px): State = { ...st, now: t }.pushPrices(m.prices)

  // ---- Configurations ----
  // No fees and no funding: every value is exact.
  pure def plainPair(p: str): CfgP = { ...pairCfg(p), funding_1: 0, funding_2: 0, funding_2_delta: 0, funding_2_decay: 0,
    funding_pool_0: 0, funding_pool_1: 0, funding_share: 0, fee_0: 0, fee_1: 0 }
  pure val roomy: CfgX = { ...defaultCfg, skew_ratio_cap: i(1000) }

  // ---- Orders ----
  pure def plainOrder(a: int, p: str, amt: int): { delay: int, expiry: int, acct: int, pair: str, amt: int, reduce: bool, plim: (str, int), slip: (str, int),
      act: List[Idx], can: List[Idx], status: int, oath: Oath } =
    { delay: 0, expiry: 1000000, acct: a, pair: p, amt: amt, reduce: false, plim: ("none", 0), slip: ("none", 0), act: [], can: [], status: ACTIVE, oath: noOath }
  pure def nextReq(st: State, a: int): int = if (hasAcct(st, a)) length(st.accts[a].reqs) else 0
  // An order and its execution one second later.
  pure def trade(st: State, t: int, a: int, p: str, amt: int, m: Px): List[Step] =
    [by(t, keyOf(a), Order(plainOrder(a, p, amt))), go(t + 1, Process({ acct: a, index: nextReq(st, a), px: m }))]
  pure def unit(p: str): int = div(i(1000), base(p))
  pure def div(a: int, b: int): int = ddiv(a, b)
  pure def amtOf(st: State, a: int, p: str, e: int, k: int): int = {
    val o = if (hasAcct(st, a)) posOf(st.accts[a], p).amt else 0
    val u = unit(p)
    val c = d(e, k, 16)
    if (c == 0) -o else if (c == 1) tdiv(-o, 2) else if (c == 2) -2 * o else if (c == 3) -o - u else if (c == 4) -o + u
    else if (c == 5) 3 * u else if (c == 6) -3 * u else if (c == 7) u / 3 else if (c == 8) -u / 7
    else if (c == 9) 10 * u else if (c == 10) -10 * u else if (c == 11) u else if (c == 12) -u else if (c == 13) 2 * u else if (c == 14) -2 * u
    else tdiv(-o, 3)
  }
  pure def limitOf(p: str, e: int, k: int): (str, int) = {
    val c = d(e, k, 20)
    val b = base(p)
    if (c < 12) ("none", 0) else if (c == 12) ("gte", b) else if (c == 13) ("lte", b) else if (c == 14) ("gte", b + 1) else if (c == 15) ("lte", b - 1)
    else if (c == 16) ("gte", b * 9 / 10) else if (c == 17) ("lte", b * 11 / 10) else if (c == 18) ("gte", b * 11 / 10) else ("lte", b * 9 / 10)
  }
  pure def slipOf(e: int, k: int): (str, int) = {
    val c = d(e, k, 20)
    if (c < 14) ("none", 0) else if (c == 14) ("pct", 0) else if (c == 15) ("pct", frac(1, 1)) else if (c == 16) ("pct", frac(5, 2)) else if (c == 17) ("abs", 0)
    else if (c == 18) ("abs", i(1)) else ("pct", i(1))
  }

  // ---- A world with pairs, collateral, liquidity and accounts ----
  pure def world(cx: CfgX, ps: List[CfgP], cs: List[CfgC], liq: int): List[Step] =
    [admin(START, ExCfg({ cfg: cx })), admin(START, PairCfg({ cfgs: ps })), admin(START, CollCfg({ cfgs: cs })),
     go(START, Push({ px: flat(START), want: [] })), go(START, AddLiq({ amount: liq, res: "BASE" }))]
  pure val colls: List[CfgC] = [collCfg("C1", "FC1"), collCfg("C2", "FC2")]
  pure def account(k: str, tokens: Tokens): Step = go(START, CreateAccount({ rule: k, tokens: tokens, code: "", oath: noOath }))
  pure def referred(k: str, tokens: Tokens, code: str): Step = go(START, CreateAccount({ rule: k, tokens: tokens, code: code, oath: noOath }))
  // One referrer with rates in hundredths of a percent and a code for n accounts.
  pure def referrer(fr: int, fb: int, code: str, n: int): List[Step] =
    [admin(START, MintRef({ fee_referral: frac(fr, 4), fee_rebate: frac(fb, 4), max: 1000 })),
     go(START, CreateCodes({ ref: 0, tokens: [], codes: [(code, [], n)], fake: "" }))]
}
