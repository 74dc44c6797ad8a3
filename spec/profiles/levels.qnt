// Permission levels of accounts and the registry of who controls what (P11, P13).
module levels {
  import gen.* from "../gen"

  pure val RULES: List[str] = ["K1", "K2", "K3", "K4", "allow", "deny", "any(K1,K2)", "any(K3,K4)", "any(K1)", "any(K1,any(K3,K4))", "any(K2,K2,K1)", "all(K1,K2)", "all(K2,any(K3,K4))"]
  pure val START_RULES: List[str] = ["K1", "K2", "any(K1,K2)", "allow", "any(K1,any(K3,K4))", "all(K1,K2)", "any(K2,K2,K1)", "deny"]
  pure def setup(e: int): List[Step] =
    world(roomy, [plainPair("P1")], [collCfg("C1", "FC1")], i(100000))
      .concat([account(pickS(e, 1, START_RULES), [("BASE", i(1000))]), account(pickS(e, 2, START_RULES), [("BASE", i(1000)), ("C1", i(10))]), account("K1", [])])
  // A key that a rule names, so that probes succeed often enough.
  pure def holder(r: Rule, e: int, k: int): str =
    if (r.k == "any" or r.k == "node") { val x = r.n[d(e, k, length(r.n))]
      if (x == "any(K3,K4)" or x == "all(K2,any(K3,K4))") pickS(e, k + 1, ["K3", "K4"]) else if (x == "any(K1,K2)" or x == "all(K1,K2)" or x == "any(K1)" or x == "any(K1,any(K3,K4))") "K1"
      else if (x == "any(K2,K2,K1)") "K2" else x }
    else pickS(e, k, KEYS)
  pure def signers(st: State, a: int, l: int, e: int, k: int): List[str] = {
    val h = holder(st.accts[a].roles[l - 1], e, k)
    val c = d(e, k + 2, 20)
    if (c < 9) [h] else if (c < 11) ["K1", "K2"] else if (c == 11) ["K2", "K4"] else if (c == 12) [] else if (c == 13) ["D"]
    else if (c == 14 and st.rkeys > 0) [recoveryKey(d(e, k + 3, dmin(st.rkeys, 8)))]
    // somebody who holds another level of this account, or another account
    else if (c < 18) [holder(st.accts[a].roles[d(e, k + 3, 3)], e, k + 4)]
    else [holder(st.accts[d(e, k + 3, length(st.accts))].roles[d(e, k + 5, 3)], e, k + 4)]
  }
  pure def acctFor(st: State, e: int, k: int): int = d(e, k, length(st.accts))
  pure def kept(sg: List[str]): List[str] = sg.select(x => KEYS.indices().exists(n => KEYS[n] == x) or x == "D" or x == "RK0" or x == "RK1" or x == "RK2" or x == "RK3" or x == "RK4" or x == "RK5" or x == "RK6" or x == "RK7")
  // Obligations pay for some of it; they must not replace the permission.
  pure def toll(e: int): Oath = if (chance(e, 20, 25)) { ...noOath, mode: "full", amount: frac(1, 1) } else noOath
  def setAuth(e: int): List[Step] = {
    val a = acctFor(s, e, 0)
    [{ t: s.now, signers: signers(s, a, 1, e, 1).kept(), op: SetAuth({ acct: a, level: 1 + pick(e, 8, [0, 1, 1, 2, 2]), rule: pickS(e, 9, RULES), oath: toll(e) }) }]
  }
  def addRule(e: int): List[Step] = {
    val a = acctFor(s, e, 0)
    [{ t: s.now, signers: signers(s, a, 1, e, 1).kept(), op: AddRule({ acct: a, level: pick(e, 8, [1, 1, 2, 2, 3, 3, 3, 0, 4]), rule: pickS(e, 9, ["K1", "K2", "K3", "K4", "all(K1,K2)", "all(K2,any(K3,K4))"]), oath: toll(e) }) }]
  }
  def recovery(e: int): List[Step] = {
    val a = acctFor(s, e, 0)
    if (s.rkeys >= 7) setAuth(e) else [{ t: s.now, signers: signers(s, a, 1, e, 1).kept(), op: Recovery({ acct: a, oath: toll(e) }) }]
  }
  def open(e: int): List[Step] = if (length(s.accts) > 6) setAuth(e) else [go(s.now, CreateAccount({ rule: pickS(e, 0, RULES), tokens: [("BASE", i(10))], code: "", oath: toll(e) }))]
  // What levels 2 and 3 allow.
  def probe(e: int): List[Step] = {
    val a = acctFor(s, e, 0)
    val k = d(e, 9, 7)
    val l = if (k == 0 or k == 1) 2 else 3
    val n = dmax(0, length(s.accts[a].reqs) - 1)
    val op =
      if (k == 0) RemoveReq({ acct: a, expiry: 100, target: "TARGET", claims: [("BASE", i(1))], oath: toll(e) })
      else if (k == 1) RemoveReq({ acct: a, expiry: 100, target: "WALLET", claims: [], oath: toll(e) })
      else if (k == 2) AddColl({ acct: a, tokens: [("BASE", i(1))], oath: toll(e) })
      else if (k == 3) Order({ ...plainOrder(a, "P1", i(1)), oath: toll(e) })
      else if (k == 4) Tpsl({ delay: 0, expiry: 10, acct: a, pair: "P1", amt: i(1), reduce: false, plim: ("none", 0), slip: ("none", 0), tp: [i(120)], sl: [], oath: toll(e) })
      else if (k == 5) Cancel({ acct: a, indexes: [n], oath: toll(e) })
      else Cancel({ acct: a, indexes: [], oath: toll(e) })
    [{ t: s.now, signers: signers(s, a, l, e, 1).kept(), op: op }]
  }
  // Reset a level to something usable, by whoever may.
  def mend(e: int): List[Step] = {
    val a = acctFor(s, e, 0)
    [{ t: s.now, signers: [holder(s.accts[a].roles[0], e, 1)].kept(), op: SetAuth({ acct: a, level: 1 + d(e, 8, 3), rule: pickS(e, 9, ["K1", "K2", "any(K1,K2)", "allow"]), oath: toll(e) }) }]
  }
  action init = { nondet e = ENTROPY.oneOf() begins(setup(e)) }
  action step = {
    nondet e = ENTROPY.oneOf()
    nondet k = 0.to(19).oneOf()
    plays(if (k < 5) setAuth(e) else if (k < 10) addRule(e) else if (k < 12) recovery(e) else if (k == 12) open(e) else if (k < 19) probe(e) else mend(e))
  }
}
