------------------------------ MODULE Security ------------------------------
(***************************************************************************)
(* Security-constrained dispatch (C22): a decision is accepted iff the     *)
(* plain optimisation accepts it and no listed outage of one branch leaves *)
(* a remaining branch above its limit.                                     *)
(*                                                                         *)
(* An observation carries, besides the fields of Dispatch,                 *)
(*   ev.outages        the listed outages <<class, id>>                    *)
(*   candidate.after   for every outage and step the flows class->id->flow *)
(* `after` is only a witness: AfterFails says what it has to satisfy, and  *)
(* that determines it when the outage does not cut the network in two.     *)
(***************************************************************************)
EXTENDS Dispatch

Alive(cs, k) == {e \in BranchIds(cs) : On(cs, BranchOf(cs, e)[2], k)}
IsBranch(cs, e, o) == e[1] = o[1] /\ BranchOf(cs, e)[2].id = o[2]
Outgoing(cs, o, k) == \E e \in Alive(cs, k) : IsBranch(cs, e, o)

NetOut(cs, D, f(_), b) ==
  Sum(D, LAMBDA e : LET c == BranchOf(cs, e)[2] IN Sub(IF c.bus0 = b THEN f(e) ELSE 0, IF c.bus1 = b THEN f(e) ELSE 0))
Explained(cs, D, f(_)) ==
  LET E == [e \in D |-> LET cb == BranchOf(cs, e) w == Weight(cs, cb) IN [f |-> cb[2].bus0, t |-> cb[2].bus1, w |-> w, d |-> Mul(w, f(e))]]
      pot == Angles([b \in {} |-> 0], D, E)
  IN \A e \in D : EqTol(Div(Sub(Sub(pot[E[e].f], pot[E[e].t]), E[e].d), E[e].w), 0, "1e-4")

(* the flows w are those after the outage of o at step k                   *)
AfterFails(cs, x, o, w, k) ==
  LET D == Alive(cs, k)
      R == {e \in D : ~IsBranch(cs, e, o)}
      before(e) == Flow(x, BranchOf(cs, e), k)
      after(e) == w[e[1]][BranchOf(cs, e)[2].id]
  IN FailIf(\E b \in Range(cs.buses) : ~EqTol(NetOut(cs, D, before, b.id), NetOut(cs, R, after, b.id), "1e-4"), "harness: injections differ after the outage")
     \cup FailIf(~Explained(cs, R, after), "harness: no bus angles explain the flows after the outage")
OverloadFails(cs, x, o, w, k) ==
  UNION { LET cb == BranchOf(cs, e)
              f == w[e[1]][cb[2].id]
              cap == Mul(A(cb[2], "s_max_pu", T_(cs, k)), Cap(x, cb[1], cb[2], "s_nom"))
          IN FailIf(Less(cap, f) \/ Less(cap, NegQ(f)), "a branch is overloaded after an outage")
        : e \in {e \in Alive(cs, k) : ~IsBranch(cs, e, o)} }

OutageFails(cs, x, after, outages) ==
  UNION { IF Outgoing(cs, outages[j], k)
          THEN AfterFails(cs, x, outages[j], after[j][k], k) \cup OverloadFails(cs, x, outages[j], after[j][k], k)
          ELSE {}
        : j \in DOMAIN outages, k \in Steps(cs) }
SecureFails(cs, x, after, outages) == LET v == Violated(cs, x) IN IF v # {} THEN v ELSE OutageFails(cs, x, after, outages)

SecureCandidate(ev, c) ==
  LET v == SecureFails(ev.cs, c.x, c.after, ev.outages)
  IN (IF c.adm /\ v # {} THEN {"admitted although: " \o s : s \in v} ELSE {})
     \cup (IF ~c.adm /\ v = {} THEN {"a feasible decision is excluded (by " \o c.why \o ")"} ELSE {})
     \cup (IF c.priced THEN CostFails(ev.cs, c) ELSE {})
SecurityFails(ev) ==
  IF ev.out # "ok" THEN {"the optimisation is refused"}
  ELSE UNION {{ToString(i) \o "|" \o s : s \in SecureCandidate(ev, ev.cands[i])} : i \in DOMAIN ev.cands}

(* a solved network                                                        *)
SecureSolutionFails(ev) ==
  IF ev.out # "ok" THEN {"the optimisation is refused"} ELSE
  LET feasible == {i \in DOMAIN ev.cands : SecureFails(ev.cs, ev.cands[i].x, ev.cands[i].after, ev.outages) = {}}
  IN IF ev.solved
     THEN {"solution: " \o s : s \in SecureFails(ev.cs, ev.x, ev.after, ev.outages)}
          \cup FailIf(~EqTol(ev.obj, Objective(ev.cs, ev.x), MaxQ("1e-4", Mul("1e-4", ev.scale))), "reported objective differs from the documented system cost")
          \cup FailIf(\E i \in feasible : Less(Objective(ev.cs, ev.cands[i].x), Sub(ev.obj, MaxQ("1e-3", Mul("1e-3", ev.scale)))),
                      "a feasible decision is cheaper than the reported optimum")
     ELSE FailIf(ev.cond = "infeasible" /\ feasible # {}, "reported infeasible although a feasible decision exists")
=============================================================================
