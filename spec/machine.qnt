// The state machine: the exchange's state, the last transactions run on it and how they were judged.
// Every action plays a list of steps; the replay compares the real ledger after each list.
module machine {
  import dec.* from "./dec"
  import types.* from "./types"
  import surge.* from "./surge"
  export dec.*
  export types.*
  export surge.*

  var s: State
  var batch: List[Step]
  var res: List[Res]
  var seen: View

  action begins(l: List[Step]): bool = {
    val b = judgeAll(initial, l)
    all { s' = b.s, batch' = l, res' = b.res, seen' = view(b.s) }
  }
  action plays(l: List[Step]): bool = {
    val b = judgeAll(s, l)
    all { s' = b.s, batch' = l, res' = b.res, seen' = view(b.s) }
  }

  // ---- What must hold in every state ----
  pure def fold3(l: List[Acct], f: Acct => int): int = l.foldl(0, (a, x) => a + f(x))
  // P01: all internal balances add up to nothing
  val zeroSum = s.pool.vb + fold3(s.accts, x => x.vb) + s.prot + s.treas + s.fd.vb + s.refs.foldl(0, (a, x) => a + x.balance) == 0
  // P02: the pool mirrors the accounts
  val mirror = PAIRS.indices().forall(k => {
    val p = PAIRS[k]
    val q = pairOf(s, p)
    and {
      q.oiL == fold3(s.accts, x => dmax(posOf(x, p).amt, 0)),
      q.oiS == fold3(s.accts, x => dmax(-posOf(x, p).amt, 0)),
      q.cost == fold3(s.accts, x => posOf(x, p).cost),
    }
  })
  val snapshots = and {
    s.pool.skew == s.pool.pairs.keys().fold(0, (a, p) => a + s.pool.pairs.get(p).skew),
    s.pool.pnl == s.pool.pairs.keys().fold(0, (a, p) => a + s.pool.pairs.get(p).pnl),
    s.accts.indices().forall(a => s.accts[a].pos.keys().forall(p => s.accts[a].pos.get(p).amt != 0)),
  }
  // P10: the active set is exactly the pending requests still valid
  val activeSet = s.accts.indices().forall(a => {
    val x = s.accts[a]
    x.active == x.reqs.indices().filter(n => n >= x.vrs and pending(x.reqs[n]))
  })
  // P13: the registry lists exactly who a rule controls
  val registry = s.perms.keys().forall(r => 1.to(3).forall(l =>
    permsOf(s, r)[l - 1] == s.accts.indices().filter(a => listings(s.accts[a].roles[l - 1]).contains(r))))
    and s.accts.indices().forall(a => 1.to(3).forall(l => listings(s.accts[a].roles[l - 1]).forall(r => permsOf(s, r)[l - 1].contains(a))))
  // P16/P14: nothing is held negatively
  val custody = and {
    s.pool.tokens >= 0,
    s.accts.indices().forall(a => s.accts[a].coll.keys().forall(r => s.accts[a].coll.get(r) >= 0)),
    s.supply.get("LP") >= 0, s.supply.get("BASE") >= 0,
    s.prot >= 0, s.treas >= 0, s.refs.indices().forall(r => s.refs[r].balance >= 0),
  }
  // P18: outstanding promises are backed, limits hold
  pure def owed(st: State, r: str): int =
    st.codes.keys().fold(0, (a, k) => a + (st.codes.get(k).max - st.codes.get(k).n) * sum(st.codes.get(k).claims.foldl([], (l, c) => if (c._1 == r) l.append(c._2) else l)))
    + st.refs.foldl(0, (a, x) => a + x.allocs.foldl(0, (b, al) => b + (al.max - al.n) * sum(al.claims.foldl([], (l, c) => if (c._1 == r) l.append(c._2) else l))))
  val backed = and {
    ["BASE", "C1", "C2", "C3"].indices().forall(k => amountOf(s.refvault, ["BASE", "C1", "C2", "C3"][k]) >= owed(s, ["BASE", "C1", "C2", "C3"][k])),
    s.codes.keys().forall(k => s.codes.get(k).n <= s.codes.get(k).max),
    s.refs.indices().forall(r => s.refs[r].allocs.indices().forall(k => s.refs[r].allocs[k].n <= s.refs[r].allocs[k].max)),
  }
  // P20: wrapped base tokens are backed
  val wrapped = s.wrapper.indices().forall(k => s.wrapper[k].amount >= 0)
  val safe = and { zeroSum, mirror, snapshots, activeSet, registry, custody, backed, wrapped }
}
