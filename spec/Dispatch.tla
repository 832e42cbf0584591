------------------------------ MODULE Dispatch ------------------------------
(***************************************************************************)
(* What the optimisation model must accept, and at what cost: a candidate  *)
(* decision x of case cs is feasible iff it violates no rule.              *)
(* Failures(ev) judges an observation of the implementation:               *)
(*   ev.cs      the case                                                   *)
(*   ev.cands   candidate decisions, each [x, adm, why, obj, scale, priced]:*)
(*              decision, whether the implementation's model admits it,    *)
(*              and the value of the implementation's objective at it      *)
(*   ev.const   the reported objective constant                            *)
(***************************************************************************)
EXTENDS Units, Storage, Grid, Cost, TLC

Violated(cs, x) == UnitsFails(cs, x) \cup StorageFails(cs, x) \cup GridFails(cs, x)
                   \cup InvestFails(cs, x) \cup LimitsFails(cs, x)

CostFails(cs, c) == FailIf(~EqTol(c.obj, Objective(cs, c.x), MaxQ("1e-5", Mul("1e-6", c.scale))),
                           "objective differs from the documented system cost")

CandidateFails(cs, c) ==
  LET v == Violated(cs, c.x)
  IN (IF c.adm /\ v # {} THEN {"admitted although: " \o s : s \in v} ELSE {})
     \cup (IF ~c.adm /\ v = {} /\ NoSpuriousStarts(cs, c.x) THEN {"a feasible decision is excluded (by " \o c.why \o ")"} ELSE {})
     \cup (IF c.priced THEN CostFails(cs, c) ELSE {})

(* Every candidate of the event is judged; "i|" prefixes its number. *)
Failures(ev) ==
  UNION {{ToString(i) \o "|" \o s : s \in CandidateFails(ev.cs, ev.cands[i])} : i \in DOMAIN ev.cands}
  \cup FailIf(~Eq(ev.const, ExistingCost(ev.cs)), "0|objective constant differs from the cost of existing capacity")

(* What the rules say about each candidate (for coverage statistics). *)
Classify(ev) == {ToString(i) \o "|" \o (IF Violated(ev.cs, ev.cands[i].x) = {} THEN "feasible" ELSE "infeasible") : i \in DOMAIN ev.cands}

(* A solution returned by the optimiser (ev.x, reported objective ev.obj)  *)
(* is feasible, costs what is reported, and no feasible decision is        *)
(* cheaper; when the problem is reported infeasible none is feasible.      *)
SolutionFailures(ev) ==
  LET feasible == {i \in DOMAIN ev.cands : Violated(ev.cs, ev.cands[i].x) = {}}
  IN IF ev.solved
     THEN {"solution: " \o s : s \in Violated(ev.cs, ev.x)}
          \cup FailIf(~EqTol(ev.obj, Objective(ev.cs, ev.x), MaxQ("1e-4", Mul("1e-4", ev.scale))), "reported objective differs from the documented system cost")
          \cup FailIf(~Eq(ev.const2, ExistingCost(ev.cs)), "objective constant differs from the cost of existing capacity")
          \cup FailIf(\E i \in feasible : Less(Objective(ev.cs, ev.cands[i].x), Sub(ev.obj, MaxQ("1e-3", Mul("1e-3", ev.scale)))),
                      "a feasible decision is cheaper than the reported optimum")
     ELSE FailIf(ev.cond = "infeasible" /\ feasible # {}, "reported infeasible although a feasible decision exists")
=============================================================================
