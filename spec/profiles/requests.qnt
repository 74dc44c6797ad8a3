// The life of a request: window, states, limits, cancellation (P10, P07).
module requests {
  import gen.* from "../gen"

  pure def setup(e: int): List[Step] =
    world({ ...roomy, active_requests_max: pick(e, 1, [2, 4, 100, 100]) }, [plainPair("P1"), { ...plainPair("P2"), trade_size_min: i(1) }], [collCfg("C1", "FC1")], i(100000))
      .concat([account("K1", [("BASE", i(10000)), ("C1", i(100))]), account("K2", [("BASE", i(100000))])])
  pure val DELAYS: List[int] = [0, 0, 0, 1, 5, 10, 60]
  pure val SPANS: List[int] = [0, 1, 2, 5, 10, 60, 600, 600, 600, 600]
  pure val HUGE: List[int] = [I64MAX, I64MAX - START, 2^64 - 1, 2^63, I64MAX - START - 1000, 2^63 - 1, 2^64 - START, 2^64 - 5]
  def order(e: int): List[Step] = {
    val a = d(e, 0, 2)
    val t = soon(s, e, 2)
    val p = pickS(e, 1, ["P1", "P2"])
    val odd = chance(e, 3, 8)
    [by(t, keyOf(a), Order({ ...plainOrder(a, p, pick(e, 9, [i(1), -i(1), i(2), frac(1, 1), i(1), -i(1), frac(999, 3), 0])), delay: if (odd and chance(e, 4, 50)) pick(e, 5, HUGE) else pick(e, 5, DELAYS),
      expiry: if (odd) pick(e, 6, HUGE) else pick(e, 6, SPANS), status: if (chance(e, 7, 90)) pick(e, 8, [1, 1, 1, 0]) else pick(e, 8, [2, 3, 4, 5]) }))]
  }
  def withdrawal(e: int): List[Step] = {
    val a = d(e, 0, 2)
    val t = soon(s, e, 2)
    [by(t, keyOf(a), RemoveReq({ acct: a, expiry: if (chance(e, 3, 8)) pick(e, 6, HUGE) else pick(e, 6, SPANS), target: pickS(e, 4, ["TARGET", "TARGET", "REJECT"]),
      claims: [(pickS(e, 1, ["BASE", "BASE", "C1"]), i(pick(e, 5, [0, 1, 10, 1000])))], oath: noOath }))]
  }
  def someReq(a: int, e: int, k: int): int = {
    val l = s.accts[a].active.fold([], (x, n) => x.append(n))
    if (length(l) > 0 and d(e, k, 10) < 7) l[d(e, k, 1000) / 10 % length(l)] else dmax(0, length(s.accts[a].reqs) - d(e, k, 6))
  }
  // Around the two ends of the window.
  def edge(e: int): List[Step] = {
    val a = d(e, 0, 2)
    val n = someReq(a, e, 1)
    val t = if (hasReq(s.accts[a], n)) {
      val r = s.accts[a].reqs[n]
      dmax(s.now, if (chance(e, 2, 50)) r.sub + pick(e, 3, [-1, 0, 1, 1]) else if (r.exp < START + 10000000) r.exp + pick(e, 3, [-1, -1, 0, 1]) else r.sub + 1)
    } else s.now
    val m = if (chance(e, 4, 85)) flat(t) else noPx
    val one = go(t, Process({ acct: a, index: n, px: m }))
    if (chance(e, 5, 25)) [one, one] else [one]
  }
  def attempt(e: int): List[Step] = {
    val a = d(e, 0, 2)
    val t = soon(s, e, 2)
    [go(t, Process({ acct: if (chance(e, 3, 95)) a else 7, index: someReq(a, e, 1), px: flat(t) }))]
  }
  def cancel(e: int): List[Step] = {
    val a = d(e, 0, 2)
    val t = soon(s, e, 2)
    val n = someReq(a, e, 1)
    val m = someReq(a, e, 3)
    val q = dmax(0, length(s.accts[a].reqs) - 1)
    val l = if (chance(e, 4, 15)) [n, n] else if (chance(e, 5, 30)) [n, m, q] else if (chance(e, 6, 40)) [n, m] else if (chance(e, 7, 10)) [] else [q]
    [by(t, keyOf(a), Cancel({ acct: a, indexes: l, oath: noOath }))]
  }
  // Cancel everything that is pending, in one go.
  def clear(e: int): List[Step] = {
    val a = d(e, 0, 2)
    [by(soon(s, e, 2), keyOf(a), Cancel({ acct: a, indexes: s.accts[a].reqs.indices().filter(n => s.accts[a].active.contains(n)).fold([], (l, n) => l.append(n)), oath: noOath }))]
  }
  def bracket(e: int): List[Step] = {
    val a = d(e, 0, 2)
    val t = soon(s, e, 2)
    [by(t, keyOf(a), Tpsl({ delay: pick(e, 5, DELAYS), expiry: pick(e, 6, SPANS), acct: a, pair: "P1", amt: pick(e, 7, [i(1), -i(1)]), reduce: false, plim: ("none", 0), slip: ("none", 0),
      tp: [i(90)], sl: if (chance(e, 8, 70)) [i(110)] else [], oath: noOath }))]
  }
  def limit(e: int): List[Step] = [admin(s.now, ExCfg({ cfg: { ...s.cfg, active_requests_max: pick(e, 1, [1, 2, 3, 5, 100]) } }))]
  action init = { nondet e = ENTROPY.oneOf() begins(setup(e)) }
  action step = {
    nondet e = ENTROPY.oneOf()
    nondet k = 0.to(19).oneOf()
    plays(if (k < 6) order(e) else if (k < 8) withdrawal(e) else if (k < 13) edge(e) else if (k < 15) attempt(e) else if (k < 17) cancel(e) else if (k == 17) bracket(e)
      else if (k == 18) (if (chance(e, 30, 40)) clear(e) else edge(e)) else limit(e))
  }
}
