-------------------------------- MODULE Cost --------------------------------
(***************************************************************************)
(* The total system cost of a decision (C18).                              *)
(***************************************************************************)
EXTENDS Limits

W(cs, k) == Mul(cs.wo[T_(cs, k)], PeriodObj(cs, Year(cs, k)))
OverTime(cs, a, F(_)) == Sum({k \in Steps(cs) : On(cs, a, k)}, LAMBDA k : Mul(W(cs, k), F(k)))

RunCost(cs, a, p) == OverTime(cs, a, LAMBDA k :
   Add(Mul(A(a, "marginal_cost", T_(cs, k)), p[k]), Mul(A(a, "marginal_cost_quadratic", T_(cs, k)), Mul(p[k], p[k]))))
LevelCost(cs, a, lev) == OverTime(cs, a, LAMBDA k : Mul(A(a, "marginal_cost_storage", T_(cs, k)), lev[k]))
CommitCost(cs, a, st, su, sd) ==
  IF ~a.committable \/ ~a.active THEN 0
  ELSE SumSeq(<< OverTime(cs, a, LAMBDA k : Mul(A(a, "stand_by_cost", T_(cs, k)), st[k])),
                 Sum(Steps(cs), LAMBDA k : Add(Mul(a.start_up_cost, su[k]), Mul(a.shut_down_cost, sd[k]))) >>)

OperatingCost(cs, x) ==
  SumSeq(<<
    Sum(Range(cs.gens), LAMBDA g : Add(RunCost(cs, g, x.gp[g.id]),
        IF g.committable THEN CommitCost(cs, g, x.gst[g.id], x.gsu[g.id], x.gsd[g.id]) ELSE 0)),
    Sum(Range(cs.links), LAMBDA l : Add(RunCost(cs, l, x.lp[l.id]),
        IF l.committable THEN CommitCost(cs, l, x.lst[l.id], x.lsu[l.id], x.lsd[l.id]) ELSE 0)),
    Sum(Range(cs.sus), LAMBDA s : SumSeq(<< RunCost(cs, s, x.ud[s.id]), LevelCost(cs, s, x.soc[s.id]),
        OverTime(cs, s, LAMBDA k : Mul(A(s, "spill_cost", T_(cs, k)), x.spill[s.id][k])) >>)),
    Sum(Range(cs.stores), LAMBDA s : Add(RunCost(cs, s, x.sp[s.id]), LevelCost(cs, s, x.se[s.id]))) >>)

(* annualised capital cost per unit of capacity over the periods in service *)
CapitalFactor(cs, a) == IF cs.multi THEN YearsInService(cs, a) ELSE IF a.active THEN 1 ELSE 0
CapitalCost(cs, x) ==
  SumSeq([i \in DOMAIN Classes |-> Sum(Extendable(cs, Classes[i]), LAMBDA a :
     Mul(Mul(CapitalFactor(cs, a), a.capital_cost), CapOf(x, Classes[i], a)))])
ExistingCost(cs) ==
  SumSeq([i \in DOMAIN Classes |-> Sum(Extendable(cs, Classes[i]), LAMBDA a :
     Mul(Mul(CapitalFactor(cs, a), a.capital_cost), a[Classes[i].nom]))])

Objective(cs, x) == Sub(Add(OperatingCost(cs, x), CapitalCost(cs, x)), ExistingCost(cs))
=============================================================================
