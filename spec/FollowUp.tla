------------------------------ MODULE FollowUp ------------------------------
(***************************************************************************)
(* What is done with an optimised network afterwards (C23): fixing its     *)
(* capacities and dispatch, load shedding, near-optimal alternatives, and  *)
(* transmission expansion in iterations.                                   *)
(***************************************************************************)
EXTENDS Dispatch

(* ---------------------------------------------------------------- alternatives *)
(* Total cost: operation and all capacity in service, given or decided.    *)
GivenCost(cs) ==
  SumSeq([i \in DOMAIN Classes |-> Sum({a \in Range(cs[Classes[i].f]) : ~a[Classes[i].nom \o "_extendable"]},
     LAMBDA a : Mul(Mul(CapitalFactor(cs, a), a.capital_cost), a[Classes[i].nom]))])
TotalCost(cs, x) == SumSeq(<< OperatingCost(cs, x), CapitalCost(cs, x), GivenCost(cs) >>)
(* value of the weights: entries [sec, cls, id, coef] address x[sec][id],   *)
(* or x.cap[cls][id] when sec = "cap"; coef is a sequence over the steps    *)
Weighted(x, ws) ==
  SumSeq([i \in DOMAIN ws |-> LET w == ws[i] IN
    IF w.sec = "cap" THEN Mul(w.coef[1], x.cap[w.cls][w.id]) ELSE DotSeq(w.coef, x[w.sec][w.id])])
Budget(ev) == Mul(Add(1, ev.slack), TotalCost(ev.cs, ev.best))
InBudget(ev, x) == LET b == Budget(ev) t == TotalCost(ev.cs, x) IN Less(t, b) \/ EqTol(t, b, Mul("1e-5", MaxQ(ev.scale, 1)))
NearBudget(ev, x) == EqTol(TotalCost(ev.cs, x), Budget(ev), Mul("1e-4", MaxQ(ev.scale, 1)))
AltCandidate(ev, c) ==
  LET v == Violated(ev.cs, c.x) \cup FailIf(~InBudget(ev, c.x), "its cost exceeds the budget")
  IN IF NearBudget(ev, c.x) /\ ~c.vertex THEN {}
     ELSE (IF c.adm /\ v # {} THEN {"admitted although: " \o s : s \in v} ELSE {})
          \cup (IF ~c.adm /\ v = {} /\ NoSpuriousStarts(ev.cs, c.x) THEN {"a feasible decision is excluded (by " \o c.why \o ")"} ELSE {})
          \cup FailIf(c.priced /\ ~EqTol(c.obj, Mul(ev.sense, Weighted(c.x, ev.weights)), MaxQ("1e-5", Mul("1e-6", c.scale))), "objective differs from the weighted sum")
AlternativeFails(ev) ==
  IF ev.out # "ok" THEN {"the search for an alternative is refused"}
  ELSE UNION {{ToString(i) \o "|" \o s : s \in AltCandidate(ev, ev.cands[i])} : i \in DOMAIN ev.cands}
       \cup FailIf(ev.solved /\ Violated(ev.cs, ev.x) # {}, "solution: the alternative violates a rule")
       \cup FailIf(ev.solved /\ ~InBudget(ev, ev.x) /\ ~NearBudget(ev, ev.x), "solution: the alternative exceeds the budget")
       \cup FailIf(ev.solved /\ \E i \in DOMAIN ev.cands : LET z == ev.cands[i].x IN
                      Violated(ev.cs, z) = {} /\ InBudget(ev, z) /\
                      Less(Mul(ev.sense, Weighted(z, ev.weights)), Sub(Mul(ev.sense, Weighted(ev.x, ev.weights)), MaxQ("1e-3", Mul("1e-3", ev.oscale)))),
                   "solution: a better alternative exists")

(* ---------------------------------------------------------------- discretized capacities *)
Discrete(opt, max, u, thr, frac) ==
  LET low == Mul(Floor(Div(opt, u)), u)
      rest == Sub(opt, low)
      next == Add(low, u)
      up(top) == Less(0, rest) /\ Leq(Mul(thr, top), rest)        \* whole units are not rounded up
  IN IF IsInf(max) \/ Leq(next, max) THEN (IF up(u) THEN next ELSE low)
     ELSE IF Eq(low, max) THEN low
     ELSE IF frac /\ up(Sub(max, low)) THEN max
     ELSE IF Less(max, u) THEN max
     ELSE low
(* An optimal capacity is known up to the tolerance of the solver, which may *)
(* decide about the last unit.                                               *)
NearDiscrete(v, opt, max, u, thr, frac) ==
  IF \/ Eq(v, Discrete(opt, max, u, thr, frac))
     \/ Eq(v, Discrete(Add(opt, "1e-4"), max, u, thr, frac))
     \/ Eq(v, Discrete(Sub(opt, "1e-4"), max, u, thr, frac)) THEN v
  ELSE Discrete(opt, max, u, thr, frac)
DiscreteFails(ev) ==
  UNION { LET q == ev.rows[i] IN
          IF Eq(q.got, Discrete(q.opt, q.max, q.u, q.thr, q.frac)) THEN {}
          ELSE {"discretized capacity of " \o ToString(q)} : i \in DOMAIN ev.rows }

(* ---------------------------------------------------------------- iterations *)
(* ev.lines: [id, ext, typed, carrier, base]; base is the capacity of one   *)
(* circuit of a typed line.  ev.calls: the optimisations; a call records   *)
(* the tables when it began (lines: [x, r, num_parallel, s_nom, ext], links *)
(* [p_nom, ext]) and the optimal capacities when it had ended.              *)
(* ev.before, ev.after: the tables before and after everything.             *)
Inverse(was, now, prev, opt) == Eq(Mul(now, opt), Mul(was, prev))
SameRow(u, v, attrs) == \A a \in attrs : IF a = "ext" THEN u[a] = v[a] ELSE Eq(u[a], v[a])
ROWS == {"x", "r", "num_parallel", "s_nom", "ext"}
LineStep(l, was, now, prev, opt) ==   \* line l between one optimisation and the next
  IF ~l.ext THEN FailIf(~SameRow(was, now, IF l.typed THEN {"num_parallel"} ELSE {"x", "r", "num_parallel"}), "parameters of a line which is not extendable are changed")
  ELSE IF l.typed THEN FailIf(~Eq(now.num_parallel, Div(opt, l.base)), "circuits of a typed line do not follow its capacity")       \* its impedance depends on the number of circuits (C29)
  ELSE FailIf(l.carrier = "AC" /\ ~Inverse(was.x, now.x, prev, opt), "reactance is not in inverse proportion to the capacity")
       \cup FailIf(l.carrier = "DC" /\ ~Inverse(was.r, now.r, prev, opt), "resistance is not in inverse proportion to the capacity")
       \cup FailIf(~SameRow(was, now, {"num_parallel"} \cup IF l.carrier = "AC" THEN {"r"} ELSE {"x"}), "another parameter of a line is changed")

M(ev) == Len(ev.calls) - 1                 \* iterations; the last call is the final one
Prev(ev, i, j) == IF i = 1 THEN ev.before.lines[j].s_nom ELSE ev.calls[i - 1].opt[j]
MeanSq(ev, i) ==
  LET J == DOMAIN ev.lines
      ms == Div(Sum(J, LAMBDA j : LET d == Sub(Prev(ev, i, j), ev.calls[i].opt[j]) IN Mul(d, d)), Len(ev.lines))
  IN Div(Sqrt(ms), Div(Sum(J, LAMBDA j : ev.calls[i].opt[j]), Len(ev.lines)))
Close(ev, i) == EqTol(MeanSq(ev, i), ev.threshold, "1e-4")
Converged(ev, i) == Less(MeanSq(ev, i), ev.threshold)
IterationFails(ev) ==
  LET m == M(ev)
      last == ev.calls[m + 1]
      unit(l) == IF l.carrier \in DOMAIN ev.link_units THEN ev.link_units[l.carrier] ELSE 0
      fixlink(l) == l.ext /\ (l.carrier = "DC" \/ l.carrier \in DOMAIN ev.link_units)
  IN IF ev.out # "ok" THEN {"the iteration is refused"} ELSE
     \* the iterations: all as given but for the parameters which follow the capacities
     UNION { LET c == ev.calls[i] IN
             FailIf(\E j \in DOMAIN ev.lines : ~SameRow(ev.before.lines[j], c.lines[j], {"s_nom", "ext"}), "a line is altered for an iteration")
             \cup FailIf(\E j \in DOMAIN ev.links : ~SameRow(ev.before.links[j], c.links[j], {"p_nom", "ext"}), "a link is altered for an iteration")
           : i \in 1..m }
     \cup UNION { LET l == ev.lines[j] IN
             LineStep(l, [ev.before.lines[j] EXCEPT !.num_parallel = IF l.ext /\ l.typed THEN Div(ev.before.lines[j].s_nom, l.base) ELSE @],
                      ev.calls[1].lines[j], 1, IF l.ext /\ l.typed THEN ev.before.lines[j].s_nom ELSE 1)
             \cup UNION { LineStep(l, ev.calls[i].lines[j], ev.calls[i + 1].lines[j], Prev(ev, i, j), ev.calls[i].opt[j]) : i \in 1..m }
           : j \in DOMAIN ev.lines }
     \* when they end
     \cup FailIf(m > ev.max, "more iterations than allowed")
     \cup FailIf(m < ev.max /\ (m < ev.min \/ (~Converged(ev, m) /\ ~Close(ev, m))), "the iteration ends too early")
     \cup FailIf(\E i \in 1..(m - 1) : i >= ev.min /\ Converged(ev, i) /\ ~Close(ev, i), "the iteration goes on after it has converged")
     \* the final optimisation: extendable branches are fixed
     \cup UNION { LET l == ev.lines[j]
                      o == ev.calls[m].opt[j]
                      want == IF ~l.ext THEN ev.before.lines[j].s_nom
                              ELSE IF Eq(ev.line_unit, 0) THEN o ELSE NearDiscrete(last.lines[j].s_nom, o, l.max, ev.line_unit, ev.line_thr, ev.frac)
                  IN FailIf(last.lines[j].ext, "a line is extendable in the final optimisation")
                     \cup FailIf(~Eq(last.lines[j].s_nom, want), "capacity of a line in the final optimisation") : j \in DOMAIN ev.lines }
     \cup UNION { LET l == ev.links[j]
                      o == ev.calls[m].linkopt[j]
                      want == IF ~fixlink(l) THEN ev.before.links[j].p_nom
                              ELSE IF Eq(unit(l), 0) THEN o
                              ELSE NearDiscrete(last.links[j].p_nom, o, l.max, unit(l), IF l.carrier \in DOMAIN ev.link_thr THEN ev.link_thr[l.carrier] ELSE "0.3", ev.frac)
                  IN FailIf(last.links[j].ext # (l.ext /\ ~fixlink(l)), "a link is wrongly extendable in the final optimisation")
                     \cup FailIf(~Eq(last.links[j].p_nom, want), "capacity of a link in the final optimisation") : j \in DOMAIN ev.links }
     \* and what is left
     \cup FailIf(\E j \in DOMAIN ev.lines : ~SameRow(ev.before.lines[j], ev.after.lines[j], {"s_nom", "ext"}), "the settings of the lines are not restored")
     \cup FailIf(\E j \in DOMAIN ev.links : ~SameRow(ev.before.links[j], ev.after.links[j], {"p_nom", "ext"}), "the settings of the links are not restored")
     \cup FailIf(\E j \in DOMAIN ev.lines : ~SameRow(last.lines[j], ev.after.lines[j], IF ev.lines[j].typed THEN {"num_parallel"} ELSE {"x", "r", "num_parallel"}), "the parameters are changed after the final optimisation")
     \cup UNION { UNION { FailIf(i \notin DOMAIN ev.track, "iteration is not recorded")
                          \cup (IF i \in DOMAIN ev.track THEN FailIf(\E j \in DOMAIN ev.lines : ~Eq(ev.track[i][j], IF i = 1 THEN ev.before.lines[j].s_nom ELSE ev.calls[i - 1].opt[j]), "wrong capacity recorded for an iteration") ELSE {})
                        : i \in 1..(m + 1) } : z \in (IF ev.tracked THEN {1} ELSE {}) }

(* ---------------------------------------------------------------- fixing and shedding *)
(* ev.before, ev.after: functions "class|attribute|id" -> value of all      *)
(* static data and series; ev.want: the entries which have to change        *)
FixFails(ev) ==
  IF ev.out # "ok" THEN {"the helper is refused"} ELSE
  UNION { IF k \notin DOMAIN ev.after THEN {"lost: " \o k} ELSE IF ev.after[k] # ev.want[k] THEN {"not as it should be: " \o k} ELSE {} : k \in DOMAIN ev.want }
  \cup { "changed: " \o k : k \in {k \in DOMAIN ev.before \ DOMAIN ev.want : k \notin DOMAIN ev.after \/ ev.after[k] # ev.before[k]} }
  \cup { "appeared: " \o k : k \in DOMAIN ev.after \ (DOMAIN ev.before \cup DOMAIN ev.want) }
=============================================================================
