// Linked orders: activations, cancellations, brackets, relative references (P23, P07).
module links {
  import gen.* from "../gen"

  pure def setup(e: int): List[Step] =
    world({ ...roomy, active_requests_max: pick(e, 1, [6, 100, 100]) }, [plainPair("P1"), plainPair("P2")], [], i(1000000))
      .concat([account("K1", [("BASE", i(100000))]), account("K2", [("BASE", i(100000))])])
  def ix(a: int, e: int, k: int): Idx = {
    val n = length(s.accts[a].reqs)
    val c = d(e, k, 10)
    if (c < 4) IdxAbs(dmax(0, n - 1 - d(e, k + 1, 5))) else if (c < 8) IdxRel(-1 - d(e, k + 1, 4)) else if (c == 8) IdxRel(pick(e, k + 1, [1, 2, 0])) else IdxAbs(n + pick(e, k + 1, [0, 1, 2, 50]))
  }
  def refs(a: int, e: int, k: int): List[Idx] = {
    val c = d(e, k, 12)
    if (c < 4) [] else if (c < 8) [ix(a, e, k + 1)] else if (c < 11) [ix(a, e, k + 1), ix(a, e, k + 3)] else [ix(a, e, k + 1), ix(a, e, k + 3), ix(a, e, k + 1)]
  }
  def order(e: int): List[Step] = {
    val a = d(e, 0, 2)
    val t = soon(s, e, 2)
    [by(t, keyOf(a), Order({ ...plainOrder(a, pickS(e, 1, ["P1", "P2"]), pick(e, 3, [i(1), -i(1), i(3)])), expiry: pick(e, 4, [5, 100, 1000]),
      plim: if (chance(e, 5, 25)) limitOf("P1", e, 6) else ("none", 0), act: refs(a, e, 7), can: refs(a, e, 12), status: pick(e, 17, [1, 1, 0]) }))]
  }
  // A dormant order, an order that activates it, and one that cancels both.
  def chain(e: int): List[Step] = {
    val a = d(e, 0, 2)
    val t = soon(s, e, 2)
    val n = nextReq(s, a)
    [by(t, keyOf(a), Order({ ...plainOrder(a, "P1", i(1)), status: DORMANT, can: [IdxRel(2)] })),
     by(t, keyOf(a), Order({ ...plainOrder(a, "P2", i(1)), act: [IdxRel(-1)], can: if (chance(e, 3, 50)) [IdxAbs(n + 2)] else [] })),
     by(t, keyOf(a), Order({ ...plainOrder(a, "P1", -i(1)), act: [IdxAbs(n)], can: [IdxRel(-1)] }))]
  }
  def bracket(e: int): List[Step] = {
    val a = d(e, 0, 2)
    val t = soon(s, e, 2)
    val p = pickS(e, 1, ["P1", "P2"])
    val b = base(p)
    [by(t, keyOf(a), Tpsl({ delay: pick(e, 3, [0, 0, 0, 10]), expiry: pick(e, 4, [50, 1000, 1000]), acct: a, pair: p, amt: unit(p) * pick(e, 5, [1, -1, 2, -2]), reduce: chance(e, 6, 15),
      plim: if (chance(e, 7, 20)) limitOf(p, e, 8) else ("none", 0), slip: slipOf(e, 9),
      tp: if (chance(e, 10, 80)) [b * pick(e, 11, [90, 99, 100, 101, 110]) / 100] else [], sl: if (chance(e, 12, 80)) [b * pick(e, 13, [90, 99, 100, 101, 110]) / 100] else [], oath: noOath })),
     go(t + 1, Process({ acct: a, index: nextReq(s, a), px: flat(t + 1) }))]
  }
  // Process something recent; prices around the limits of brackets.
  def process(e: int): List[Step] = {
    val a = d(e, 0, 2)
    val t = soon(s, e, 2) + 1
    val m = moving(t, e, 20, [85, 90, 90, 99, 100, 100, 101, 110, 110, 115])
    [go(t, Process({ acct: a, index: dmax(0, length(s.accts[a].reqs) - 1 - d(e, 3, 6)), px: m }))]
  }
  // The newest two or three, newest first or oldest first.
  def sweep(e: int): List[Step] = {
    val a = d(e, 0, 2)
    val t = soon(s, e, 2) + 1
    val n = length(s.accts[a].reqs)
    val m = moving(t, e, 20, [90, 100, 110])
    val l = if (chance(e, 3, 50)) [n - 1, n - 2, n - 3] else [n - 3, n - 2, n - 1]
    l.foldl([], (x, y) => x.append(go(t, Process({ acct: a, index: dmax(0, y), px: m }))))
  }
  def cancel(e: int): List[Step] = {
    val a = d(e, 0, 2)
    [by(soon(s, e, 2), keyOf(a), Cancel({ acct: a, indexes: [dmax(0, length(s.accts[a].reqs) - 1 - d(e, 3, 6))], oath: noOath }))]
  }
  action init = { nondet e = ENTROPY.oneOf() begins(setup(e)) }
  action step = {
    nondet e = ENTROPY.oneOf()
    nondet k = 0.to(15).oneOf()
    plays(if (k < 4) order(e) else if (k == 4) chain(e) else if (k < 8) bracket(e) else if (k < 12) process(e) else if (k < 15) sweep(e) else cancel(e))
  }
}
