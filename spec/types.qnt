// Data of the Surge perpetuals exchange: operations, state and constants.
module types {
  import dec.* from "./dec"

  // ---- Rules, prices, obligations ----
  type Rule = { k: str, n: List[str] }              // k: allow | deny | node | any
  type Px = { on: bool, prices: List[(str, int, int)], key: int, seed: int, tamper: str }
  type Oath = { mode: str, amount: int, part: int, res: str }   // mode none: no delegated fee
  type Idx = IdxAbs(int) | IdxRel(int)
  type Tokens = List[(str, int)]

  type CfgX = {
    positions_max: int, collaterals_max: int, active_requests_max: int,
    skew_ratio_cap: int, adl_offset: int, adl_a: int, adl_b: int,
    fee_liquidity_add: int, fee_liquidity_remove: int,
    fee_share_protocol: int, fee_share_treasury: int, fee_share_referral: int,
    fee_max: int, protocol_burn_amount: int, reward_keeper: int,
  }
  type CfgP = {
    pair_id: str, price_age_max: int, oi_max: int, trade_size_min: int,
    update_price_delta_ratio: int, update_period_seconds: int,
    margin_initial: int, margin_maintenance: int,
    funding_1: int, funding_2: int, funding_2_delta: int, funding_2_decay: int,
    funding_pool_0: int, funding_pool_1: int, funding_share: int,
    fee_0: int, fee_1: int,
  }
  type CfgC = { res: str, pair_id: str, price_age_max: int, discount: int, margin: int }

  // ---- Operations (one transaction each) ----
  type Op =
    | Noop
    | Push({ px: Px, want: List[str] })
    | GetPrices({ want: List[str] })
    | AddLiq({ amount: int, res: str })
    | RemoveLiq({ amount: int, res: str })
    | CreateAccount({ rule: str, tokens: Tokens, code: str, oath: Oath })
    | AddColl({ acct: int, tokens: Tokens, oath: Oath })
    | RemoveReq({ acct: int, expiry: int, target: str, claims: Tokens, oath: Oath })
    | Order({ delay: int, expiry: int, acct: int, pair: str, amt: int, reduce: bool, plim: (str, int), slip: (str, int),
              act: List[Idx], can: List[Idx], status: int, oath: Oath })
    | Tpsl({ delay: int, expiry: int, acct: int, pair: str, amt: int, reduce: bool, plim: (str, int), slip: (str, int),
             tp: List[int], sl: List[int], oath: Oath })
    | Cancel({ acct: int, indexes: List[int], oath: Oath })
    | Process({ acct: int, index: int, px: Px })
    | SwapDebt({ acct: int, res: str, amount: int, pres: str, px: Px })
    | Liquidate({ acct: int, amount: int, pres: str, px: Px })
    | Adl({ acct: int, pair: str, px: Px })
    | UpdatePairs({ pairs: List[str], px: Px })
    | SetAuth({ acct: int, level: int, rule: str, oath: Oath })
    | AddRule({ acct: int, level: int, rule: str, oath: Oath })
    | Recovery({ acct: int, oath: Oath })
    | ExCfg({ cfg: CfgX })
    | PairCfg({ cfgs: List[CfgP] })
    | CollCfg({ cfgs: List[CfgC] })
    | CollRm({ res: str })
    | CollectTreasury
    | CollectFeeDelegator
    | SwapProtocol({ amount: int, res: str })
    | MintRef({ fee_referral: int, fee_rebate: int, max: int })
    | MintRefAlloc({ fee_referral: int, fee_rebate: int, max: int, alloc: Tokens, tokens: Tokens, count: int })
    | UpdateRef({ ref: int, fee_referral: List[int], fee_rebate: List[int], max: List[int] })
    | AddAlloc({ ref: int, tokens: Tokens, claims: Tokens, count: int })
    | CreateCodes({ ref: int, tokens: Tokens, codes: List[(str, Tokens, int)], fake: str })
    | CodesFromAlloc({ ref: int, alloc: int, codes: List[str], fake: str })
    | CollectRef({ ref: int, fake: str })
    | FdCfg({ max_lock: List[int], mult: List[int], cont: List[bool] })
    | FdWithdraw({ amount: int })
    | FdDeposit({ amount: int })
    | FdEscape({ amount: int, how: str, acct: int })
    | TwInput({ res: str })
    | TwWrappable({ res: str, on: bool })
    | Wrap({ res: str, amount: int })
    | Unwrap({ res: str, amount: int, pres: str })
    | Flash({ amount: int, repay: int, rres: str, how: str, using: str, res: str })
    | OrAddKey({ id: int, seed: int })
    | OrRmKey({ id: int })
    | OrRmPrice({ feed: str })
    | SetRole({ comp: str, role: str, rule: str })
    | WithdrawAuthority({ comp: str })
    | DepositAuthority({ comp: str, amount: int, res: str })
    | Gate({ comp: str, method: str })
    | SignalUpgrade({ comp: str })
    | EnvSet({ vars: List[(str, str)] })
    | EnvRm({ keys: List[str] })
    | FaucetAmount({ badge: bool, res: str, amount: int })
    | FaucetMint({ badge: bool, res: str, amount: int })
    | FaucetUser({ badge: bool, rule: str })
    | FaucetFree

  type Step = { t: int, signers: List[str], op: Op }
  // How the specification judges a step: accepted or not; near when rounding could decide that;
  // gate when the caller must be refused by the method's own access rule; out is a returned number.
  type Res = { ok: bool, near: bool, gate: bool, out: List[int], ev: List[Ev] }
  // What an accepted operation announces: a kind, what it names, exact numbers and amounts.
  type Ev = { k: str, t: List[str], n: List[int], m: List[int] }

  // ---- State ----
  type Pos = { amt: int, cost: int, fidx: int }
  type Req = {
    kind: str, pair: str, amt: int, reduce: bool, plim: (str, int), slip: (str, int), act: List[int], can: List[int],
    claims: Tokens, target: str, sub: int, exp: int, status: int,
  }
  type Acct = {
    vb: int, pos: str -> Pos, coll: str -> int, reqs: List[Req], active: Set[int], vrs: int, ref: int, roles: List[Rule],
  }
  type PoolPair = { oiL: int, oiS: int, cost: int, skew: int, pnl: int, f2: int, fl: int, fs: int, last: int, price: int }
  type Pool = { tokens: int, vb: int, unreal: int, skew: int, pnl: int, pairs: str -> PoolPair }
  type Alloc = { claims: Tokens, n: int, max: int }
  type Referral = { fee_referral: int, fee_rebate: int, n: int, max: int, balance: int, total: int, allocs: List[Alloc] }
  type Code = { ref: int, claims: Tokens, n: int, max: int }
  type Fd = { vb: int, max_lock: int, mult: int, cont: bool, xrd: int, xrd_known: bool }
  type Wrapper = { res: str, on: bool, amount: int }

  type State = {
    now: int, sig: Set[str],
    accts: List[Acct], pool: Pool, prot: int, treas: int, fd: Fd,
    cfg: CfgX, plist: List[str], pcfg: str -> CfgP, ccfg: str -> CfgC,
    refs: List[Referral], refvault: str -> int, codes: str -> Code,
    perms: Rule -> List[Set[int]],
    wrapper: List[Wrapper],
    prices: str -> (int, int), keys: int -> int,
    env: str -> str, faucet: { amounts: str -> int, user: Rule },
    roles: str -> Rule, exauth: int, twauth: int, rkeys: int,
    wallet: str -> int, target: str -> int, reject: str -> int, supply: str -> int,
  }

  // ---- Constants ----
  pure val DORMANT = 0
  pure val ACTIVE = 1
  pure val EXECUTED = 2
  pure val CANCELLED = 3
  pure val EXPIRED = 4
  pure val I64MAX = 9223372036854775807
  pure val PAIRS: List[str] = ["P1", "P2", "P3", "P4"]
  pure val COLLATERAL: List[str] = ["C1", "C2", "C3", "CX"]
  pure val USD_XRD = 16666666666666666666      // XRD per dollar the ledger charges fees at
  pure val START = 1800000000

  pure def unitOf(res: str): int = if (res == "C2" or res == "FUSDC" or res == "FUSDT") 10^12 else if (res == "C3") 10^16 else if (res == "FBTC") 10^10 else 1

  pure val allowRule: Rule = { k: "allow", n: [] }
  pure val denyRule: Rule = { k: "deny", n: [] }
  pure def single(x: str): Rule = { k: "node", n: [x] }

  // A rule made of one node; any(..) nodes are any-of rules.
  pure def toRule(x: str): Rule =
    if (x == "allow") allowRule
    else if (x == "deny") denyRule
    else if (x == "any(K1,K2)") { k: "any", n: ["K1", "K2"] }
    else if (x == "any(K3,K4)") { k: "any", n: ["K3", "K4"] }
    else if (x == "any(K1)") { k: "any", n: ["K1"] }
    else if (x == "any(K1,any(K3,K4))") { k: "any", n: ["K1", "any(K3,K4)"] }
    else if (x == "any(K2,K2,K1)") { k: "any", n: ["K2", "K2", "K1"] }
    else single(x)

  pure def nodeSat(x: str, sig: Set[str]): bool =
    if (x == "any(K1,K2)") sig.contains("K1") or sig.contains("K2")
    else if (x == "any(K3,K4)") sig.contains("K3") or sig.contains("K4")
    else if (x == "all(K1,K2)") sig.contains("K1") and sig.contains("K2")
    else if (x == "all(K2,any(K3,K4))") sig.contains("K2") and (sig.contains("K3") or sig.contains("K4"))
    else if (x == "any(K1)") sig.contains("K1")
    else if (x == "any(K1,any(K3,K4))") sig.contains("K1") or sig.contains("K3") or sig.contains("K4")
    else if (x == "any(K2,K2,K1)") sig.contains("K2") or sig.contains("K1")
    else sig.contains(x)

  pure def ruleSat(r: Rule, sig: Set[str]): bool =
    if (r.k == "allow") true
    else if (r.k == "deny") false
    else r.n.indices().exists(i => nodeSat(r.n[i], sig))

  pure def recoveryKey(n: int): str =
    if (n == 0) "RK0" else if (n == 1) "RK1" else if (n == 2) "RK2" else if (n == 3) "RK3"
    else if (n == 4) "RK4" else if (n == 5) "RK5" else if (n == 6) "RK6" else "RK7"

  pure val ownerRoles = Set("fee_delegator_admin", "treasury_admin", "referral_admin", "user_admin")
  pure val userRoles = Set("protocol_swap_user", "liquidity_user", "referral_user", "account_creation_user",
    "account_management_user", "remove_collateral_request_user", "margin_order_request_user", "cancel_request_user")
  pure val keeperRoles = Set("keeper_process", "keeper_swap_debt", "keeper_liquidate", "keeper_auto_deleverage", "keeper_update_pairs")

  pure val noPx: Px = { on: false, prices: [], key: 0, seed: 0, tamper: "" }
  pure val noOath: Oath = { mode: "none", amount: 0, part: 0, res: "" }

  pure val defaultCfg: CfgX = {
    positions_max: 30, collaterals_max: 5, active_requests_max: 100,
    skew_ratio_cap: frac(15, 2), adl_offset: frac(2, 1), adl_a: frac(7, 2), adl_b: frac(7, 2),
    fee_liquidity_add: frac(1, 3), fee_liquidity_remove: frac(1, 3),
    fee_share_protocol: frac(22, 2), fee_share_treasury: frac(8, 2), fee_share_referral: i(1),
    fee_max: frac(1, 2), protocol_burn_amount: i(10000), reward_keeper: i(1),
  }
  pure def pairCfg(p: str): CfgP = {
    pair_id: p, price_age_max: 60, oi_max: i(1000000000), trade_size_min: 0,
    update_price_delta_ratio: frac(5, 3), update_period_seconds: 3600,
    margin_initial: frac(1, 2), margin_maintenance: frac(5, 3),
    funding_1: i(1), funding_2: i(1), funding_2_delta: i(100), funding_2_decay: i(100),
    funding_pool_0: frac(2, 2), funding_pool_1: frac(25, 2), funding_share: frac(2, 2),
    fee_0: frac(5, 4), fee_1: 500000000,
  }
  pure def collCfg(r: str, feed: str): CfgC = { res: r, pair_id: feed, price_age_max: 60, discount: frac(9, 1), margin: frac(1, 2) }

  pure def zeroPair(now: int): PoolPair = { oiL: 0, oiS: 0, cost: 0, skew: 0, pnl: 0, f2: 0, fl: 0, fs: 0, last: now, price: ONE }
  pure val zeroPos: Pos = { amt: 0, cost: 0, fidx: 0 }

  pure val initial: State = {
    now: START, sig: Set(),
    accts: [], pool: { tokens: 0, vb: 0, unreal: 0, skew: 0, pnl: 0, pairs: Map() }, prot: 0, treas: 0,
    fd: { vb: 0, max_lock: i(3), mult: frac(15, 1), cont: false, xrd: i(5000), xrd_known: true },
    cfg: defaultCfg, plist: [], pcfg: Map(), ccfg: Map(),
    refs: [], refvault: Map(), codes: Map(), perms: Map(), wrapper: [],
    prices: Map(), keys: Map(0 -> 1), env: Map(),
    faucet: { amounts: Map("FBTC" -> frac(1, 3), "FETH" -> frac(2, 1), "FUSDC" -> 0, "FUSDT" -> 0), user: allowRule },
    roles: ownerRoles.union(userRoles).union(keeperRoles).mapBy(r => if (ownerRoles.contains(r)) single("D") else allowRule),
    exauth: ONE, twauth: ONE, rkeys: 0,
    wallet: Map("BASE" -> i(10^11), "C1" -> i(10^11), "C2" -> i(10^11), "C3" -> i(10^11), "CX" -> i(10^11), "PROT" -> i(10^8), "LP" -> 0, "KEEP" -> 0, "AUTH" -> i(1)),
    target: Map("AUTH" -> 0), reject: Map("AUTH" -> 0),
    supply: Map("BASE" -> i(10^11), "LP" -> 0, "KEEP" -> 0, "PROT" -> i(10^8)),
  }
}
