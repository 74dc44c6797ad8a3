// Who may call what: components' own methods, roles, the exchange's authority (P12).
module gates {
  import gen.* from "../gen"

  pure val GATES: List[(str, str)] = gates.fold([], (l, g) => l.append(g))
  pure def setup(e: int): List[Step] =
    world(roomy, [plainPair("P1")], [collCfg("C1", "FC1")], i(100000))
      .concat(referrer(500, 500, "c0", 5))
      .concat([account("K1", [("BASE", i(1000))]), account("allow", [("BASE", i(1000))])])
  pure def caller(e: int, k: int): List[str] = {
    val c = d(e, k, 10)
    if (c < 3) [] else if (c < 5) ["D"] else if (c < 7) ["K1"] else if (c == 7) ["K2", "K3"] else if (c == 8) ["AUTH"] else ["D", "AUTH"]
  }
  // A run of gates, each tried by some caller.
  def knock(e: int): List[Step] = {
    val k = d(e, 0, 1000)
    0.to(11).fold([], (l, n) => {
      val g = GATES[(k + n) % length(GATES)]
      l.append({ t: s.now, signers: caller(e, 1 + n), op: Gate({ comp: g._1, method: g._2 }) })
    }).append(go(s.now, Noop))
  }
  pure val ROLES: List[str] = ["protocol_swap_user", "liquidity_user", "referral_user", "account_creation_user", "account_management_user", "remove_collateral_request_user",
    "margin_order_request_user", "cancel_request_user", "keeper_process", "keeper_swap_debt", "keeper_liquidate", "keeper_auto_deleverage", "keeper_update_pairs",
    "fee_delegator_admin", "treasury_admin", "referral_admin", "user_admin"]
  def setRole(e: int): List[Step] =
    [{ t: s.now, signers: if (chance(e, 0, 70)) ["D"] else caller(e, 1), op: SetRole({ comp: "EXCHANGE", role: pickS(e, 2, ROLES), rule: pickS(e, 3, ["allow", "allow", "deny", "K1", "K2", "D", "any(K1,K2)"]) }) }]
  def resetRole(e: int): List[Step] = [admin(s.now, SetRole({ comp: "EXCHANGE", role: ROLES[d(e, 2, 13)], rule: "allow" }))]
  // Real operations under whatever the roles now allow.
  def act(e: int): List[Step] = {
    val k = d(e, 0, 16)
    val n = nextReq(s, 1)
    val op =
      if (k == 0) AddLiq({ amount: i(10), res: "BASE" }) else if (k == 1) RemoveLiq({ amount: i(5), res: "LP" })
      else if (k == 2) CreateAccount({ rule: "K1", tokens: [], code: "", oath: noOath }) else if (k == 3) AddColl({ acct: 1, tokens: [("BASE", i(1))], oath: noOath })
      else if (k == 4) RemoveReq({ acct: 1, expiry: 10, target: "TARGET", claims: [("BASE", i(1))], oath: noOath }) else if (k == 5) Order(plainOrder(1, "P1", i(1)))
      else if (k == 6) Cancel({ acct: 1, indexes: [dmax(0, n - 1)], oath: noOath }) else if (k == 7) Process({ acct: 1, index: dmax(0, n - 1), px: flat(s.now + 1) })
      else if (k == 8) UpdatePairs({ pairs: ["P1"], px: flat(s.now + 1) }) else if (k == 9) CollectTreasury else if (k == 10) CollectFeeDelegator
      else if (k == 11) MintRef({ fee_referral: 0, fee_rebate: 0, max: 1 }) else if (k == 12) CollectRef({ ref: 0, fake: "" })
      else if (k == 13) SwapProtocol({ amount: i(10000), res: "PROT" }) else if (k == 14) PairCfg({ cfgs: [plainPair("P1")] }) else CollRm({ res: "C2" })
    [{ t: s.now + 1, signers: pick2(e), op: op }]
  }
  pure def pick2(e: int): List[str] = { val c = d(e, 5, 8) if (c < 3) [] else if (c < 5) ["D"] else if (c == 5) ["K1"] else if (c == 6) ["K2"] else ["AUTH"] }
  // The exchange's authority is withdrawn by its owner, and comes back.
  def authority(e: int): List[Step] =
    if (s.exauth == 0) [{ t: s.now, signers: pick2(e), op: DepositAuthority({ comp: "EXCHANGE", amount: pick(e, 1, [i(1), i(1), frac(5, 1)]), res: pickS(e, 2, ["AUTH", "AUTH", "AUTH", "C1"]) }) }]
    else [{ t: s.now, signers: pick2(e), op: WithdrawAuthority({ comp: "EXCHANGE" }) }]
  action init = { nondet e = ENTROPY.oneOf() begins(setup(e)) }
  action step = {
    nondet e = ENTROPY.oneOf()
    nondet k = 0.to(15).oneOf()
    plays(if (k < 5) knock(e) else if (k < 7) setRole(e) else if (k < 9) resetRole(e) else if (k < 14) act(e) else if (k == 14 or s.exauth == 0) authority(e) else act(e))
  }
}
