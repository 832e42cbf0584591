---------------------------- MODULE DispatchFlow ----------------------------
(***************************************************************************)
(* An optimisation followed by a power flow (C23).  The event is one of    *)
(* PowerFlow, observed when the power flow begins and when it has ended,   *)
(* and in addition                                                         *)
(*   disp    [cls, name, p: per asked snapshot] the optimised dispatch     *)
(*   others  [what, was, is] active set points at the other snapshots      *)
(***************************************************************************)
EXTENDS PowerFlow

SetPoint(ev, d) ==
  IF d.cls = "Link" THEN LET i == CHOOSE i \in DOMAIN ev.links : ev.links[i].name = d.name IN ev.links[i].pset
  ELSE LET i == CHOOSE i \in DOMAIN ev.ones : ev.ones[i].cls = d.cls /\ ev.ones[i].name = d.name IN ev.ones[i].pset
DispatchFlowFails(ev) ==
  IF ev.out = "refused" THEN {"the optimisation with a power flow is refused"}
  ELSE Say(\E i \in DOMAIN ev.disp : \E k \in 1..ev.K : ~Eq(SetPoint(ev, ev.disp[i])[k], ev.disp[i].p[k]), "a set point is not the optimised dispatch")
       \cup Say(\E i \in DOMAIN ev.others : ev.others[i].was # ev.others[i].is, "set points of other snapshots have changed")
       \cup PfFails(ev)
=============================================================================
