-------------------------------- MODULE Units --------------------------------
(***************************************************************************)
(* Operation of generators and links: output bounds, set-points, unit      *)
(* commitment as an on/off automaton, ramping, energy budgets (C11, C13,   *)
(* C14, C19).  Each operator returns the set of violated rules.            *)
(***************************************************************************)
EXTENDS Assets

Forever == 100000

(* ---- the on/off automaton.  State: <<on, age>>, age = number of          *)
(* consecutive snapshots in the present mode (Forever when unknown).       *)
UCInit(u) ==
  IF Less(0, u.up_time_before) THEN [on |-> TRUE, age |-> u.up_time_before]
  ELSE IF Less(0, u.down_time_before) THEN [on |-> FALSE, age |-> u.down_time_before]
  ELSE [on |-> FALSE, age |-> Forever]
MayStop(u, s) == s.on /\ ~Less(s.age, u.min_up_time)
MayStart(u, s) == ~s.on /\ ~Less(s.age, u.min_down_time)
UCNext(s, on) == IF on = s.on THEN [on |-> on, age |-> Add(s.age, 1)] ELSE [on |-> on, age |-> 1]

RECURSIVE UCRun(_, _, _, _, _)
UCRun(u, s, seq, k, n) ==
  IF k > n THEN {}
  ELSE LET on == Eq(seq[k], 1)
           bad == IF on = s.on THEN {}
                  ELSE IF on THEN FailIf(~MayStart(u, s), "started before its minimum down time")
                  ELSE FailIf(~MayStop(u, s), "stopped before its minimum up time")
       IN bad \cup UCRun(u, UCNext(s, on), seq, k + 1, n)

RECURSIVE UCAfter(_, _, _, _)
UCAfter(s, seq, k, n) == IF k > n THEN s ELSE UCAfter(UCNext(s, Eq(seq[k], 1)), seq, k + 1, n)

(* State of the automaton before the optimised snapshots: the given        *)
(* initial state advanced over the schedule of earlier snapshots.          *)
UCBefore(cs, u) ==
  LET n == cs.sel[1] - 1
  IN IF n = 0 THEN UCInit(u) ELSE UCAfter(UCInit(u), u.hist_status, 1, n)

StatusFails(cs, u, st, su, sd) ==
  LET s0 == UCBefore(cs, u)
      n == K(cs)
      prev(k) == IF k = 1 THEN (IF s0.on THEN 1 ELSE 0) ELSE st[k - 1]
  IN IF ~u.active THEN FailIf(\E k \in 1..n : ~(Eq(st[k], 0) /\ Eq(su[k], 0) /\ Eq(sd[k], 0)), "commitment of a unit out of service")
     ELSE UCRun(u, s0, st, 1, n)
     \cup UNION {FailIf(~(Eq(st[k], 0) \/ Eq(st[k], 1)), "status is neither on nor off") : k \in 1..n}
     \cup UNION {FailIf(Less(su[k], Sub(st[k], prev(k))), "a start is not charged as start-up") : k \in 1..n}
     \cup UNION {FailIf(Less(sd[k], Sub(prev(k), st[k])), "a stop is not charged as shut-down") : k \in 1..n}

(* A decision may declare starts or stops that do not happen (they only add *)
(* cost); nothing is said about whether the model admits such decisions.   *)
ExactStarts(cs, u, st, su, sd) ==
  LET prev(k) == IF k = 1 THEN (IF UCBefore(cs, u).on THEN 1 ELSE 0) ELSE st[k - 1]
  IN \A k \in Steps(cs) : /\ Eq(su[k], MaxQ(0, Sub(st[k], prev(k))))
                          /\ Eq(sd[k], MaxQ(0, Sub(prev(k), st[k])))
NoSpuriousStarts(cs, x) ==
  /\ \A g \in Range(cs.gens) : g.committable /\ g.active => ExactStarts(cs, g, x.gst[g.id], x.gsu[g.id], x.gsd[g.id])
  /\ \A l \in Range(cs.links) : l.committable /\ l.active => ExactStarts(cs, l, x.lst[l.id], x.lsu[l.id], x.lsd[l.id])

(* ---- output of unit u (power p over the steps, status st if committable) *)
OutputFails(cs, u, cls, p, st, x) ==
  UNION { LET t == T_(cs, k)
              nom == Cap(x, cls, u, "p_nom")
              on == IF u.committable THEN st[k] ELSE 1
              lo == Prod3(A(u, "p_min_pu", t), nom, on)
              hi == Prod3(A(u, "p_max_pu", t), nom, on)
          IN IF ~On(cs, u, k) THEN FailIf(~Eq(p[k], 0), cls \o " output while out of service")
             ELSE FailIf(Less(p[k], lo), cls \o " output below its minimum")
                  \cup FailIf(Less(hi, p[k]), cls \o " output above its maximum")
                  \cup (IF "p_set" \in DOMAIN u.ser /\ ~IsNaN(u.ser.p_set[t])
                        THEN FailIf(~Eq(p[k], u.ser.p_set[t]), cls \o " output differs from its set-point")
                        ELSE {})
        : k \in Steps(cs) }

(* ---- ramping (C14).  The output of an out-of-service unit counts as 0.  *)
(* Documented rule, s the status (always 1 when not committable):          *)
(*   -rd*s' - rdsd*(s - s') <= p' - p <= ru*s + rusu*(s' - s)              *)
RampFails(cs, u, cls, p, st, x) ==
  UNION { LET t == T_(cs, k)
              first == k = 1
              known == ~first \/ (cs.sel[1] > 1)
              pp == IF first THEN u.hist_p ELSE p[k - 1]
              sp == IF ~u.committable THEN 1
                    ELSE IF first THEN (IF UCBefore(cs, u).on THEN 1 ELSE 0) ELSE st[k - 1]
              sk == IF u.committable THEN st[k] ELSE 1
              nom == Cap(x, cls, u, "p_nom")
              ru == A(u, "ramp_limit_up", t)
              rd == A(u, "ramp_limit_down", t)
              up == Add(Mul(ru, sp), Mul(u.ramp_limit_start_up, Sub(sk, sp)))
              dn == Add(Mul(rd, sk), Mul(u.ramp_limit_shut_down, Sub(sp, sk)))
          IN IF ~known \/ ~On(cs, u, k) THEN {}
             ELSE (IF IsNaN(ru) THEN {}
                   ELSE FailIf(Less(Mul(up, nom), Sub(p[k], pp)), cls \o " ramps up faster than its limit"))
                  \cup (IF IsNaN(rd) THEN {}
                        ELSE FailIf(Less(Mul(dn, nom), Sub(pp, p[k])), cls \o " ramps down faster than its limit"))
        : k \in Steps(cs) }

(* ---- energy budgets of generators over the optimised snapshots *)
BudgetFails(cs, g, p) ==
  LET e == SumSeq([k \in Steps(cs) |-> Mul(p[k], cs.wg[T_(cs, k)])])
  IN IF \A k \in Steps(cs) : ~On(cs, g, k) THEN {} ELSE FailIf(Less(e, g.e_sum_min), "energy below e_sum_min") \cup FailIf(Less(g.e_sum_max, e), "energy above e_sum_max")

GenFails(cs, x, g) ==
  LET p == x.gp[g.id]
      st == IF g.committable THEN x.gst[g.id] ELSE << >>
  IN OutputFails(cs, g, "Generator", p, st, x) \cup RampFails(cs, g, "Generator", p, st, x) \cup BudgetFails(cs, g, p)
     \cup (IF g.committable THEN StatusFails(cs, g, st, x.gsu[g.id], x.gsd[g.id]) ELSE {})
LinkFails(cs, x, l) ==
  LET p == x.lp[l.id]
      st == IF l.committable THEN x.lst[l.id] ELSE << >>
  IN OutputFails(cs, l, "Link", p, st, x) \cup RampFails(cs, l, "Link", p, st, x)
     \cup (IF l.committable THEN StatusFails(cs, l, st, x.lsu[l.id], x.lsd[l.id]) ELSE {})
UnitsFails(cs, x) ==
  UNION {GenFails(cs, x, g) : g \in Range(cs.gens)} \cup UNION {LinkFails(cs, x, l) : l \in Range(cs.links)}
=============================================================================
