------------------------------- MODULE Storage -------------------------------
(***************************************************************************)
(* Levels of storage units and stores (C12).  The level is the state of a  *)
(* transition system over the snapshots at which the asset is in service:  *)
(*   level' = (1 - standing loss)^h * level + h * charge                   *)
(***************************************************************************)
EXTENDS Assets

(* How the level before a step is determined:                              *)
(*   perPeriod  the level restarts in every investment period              *)
(*   cyclic     the level before the first step is the last level          *)
IsMI(cs) == cs.per[1] # 0
ActiveSteps(cs, c) == {k \in Steps(cs) : On(cs, c, k)}
SameSpan(cs, perPeriod, k, j) == ~perPeriod \/ Year(cs, k) = Year(cs, j)
Span(cs, c, perPeriod, k) == {j \in ActiveSteps(cs, c) : SameSpan(cs, perPeriod, k, j)}
MinS(S) == CHOOSE m \in S : \A j \in S : m <= j
MaxS(S) == CHOOSE m \in S : \A j \in S : m >= j

(* Level before step k. `lev` is the sequence of levels. *)
LevelBefore(cs, c, k, lev, cyclic, perPeriod, initial) ==
  LET S == Span(cs, c, perPeriod, k)
      E == {j \in S : j < k}
  IN IF E # {} THEN lev[MaxS(E)]
     ELSE IF cyclic THEN lev[MaxS(S)] ELSE initial

SUPerPeriod(cs, s) == IsMI(cs) /\ (s.cyclic_state_of_charge_per_period \/ s.state_of_charge_initial_per_period)
StorePerPeriod(cs, s) == IsMI(cs) /\ (s.e_cyclic_per_period \/ s.e_initial_per_period)

(* the transition of a storage unit at step k *)
SUNextLevel(cs, s, k, before, disp, stor, spill) ==
  LET t == T_(cs, k)
      h == cs.ws[t]
  IN Add(Mul(Pow(Sub(1, A(s, "standing_loss", t)), h), before),
         Mul(h, Sub(Sub(Add(Mul(A(s, "efficiency_store", t), stor), A(s, "inflow", t)),
                        Div(disp, A(s, "efficiency_dispatch", t))), spill)))

SUFails(cs, x, s) ==
  LET d == x.ud[s.id]  c == x.us[s.id]  l == x.soc[s.id]  w == x.spill[s.id]
      nom == Cap(x, "StorageUnit", s, "p_nom")
  IN UNION { LET t == T_(cs, k)
             IN IF ~On(cs, s, k)
                THEN FailIf(~(Eq(d[k], 0) /\ Eq(c[k], 0) /\ Eq(l[k], 0) /\ Eq(w[k], 0)), "storage unit operates while out of service")
                ELSE
                  FailIf(Less(d[k], 0) \/ Less(Mul(A(s, "p_max_pu", t), nom), d[k]), "storage discharge outside its limits")
                  \cup FailIf(Less(c[k], 0) \/ Less(Mul(NegQ(A(s, "p_min_pu", t)), nom), c[k]), "storage charge outside its limits")
                  \cup FailIf(Less(l[k], 0) \/ Less(Mul(s.max_hours, nom), l[k]), "state of charge outside its limits")
                  \cup FailIf(Less(w[k], 0) \/ Less(MaxQ(A(s, "inflow", t), 0), w[k]), "spillage outside inflow")
                  \cup FailIf(~Eq(l[k], SUNextLevel(cs, s, k,
                                    LevelBefore(cs, s, k, l, s.cyclic_state_of_charge, SUPerPeriod(cs, s), s.state_of_charge_initial),
                                    d[k], c[k], w[k])), "state of charge does not follow the storage balance")
                  \cup (IF "state_of_charge_set" \in DOMAIN s.ser /\ ~IsNaN(s.ser.state_of_charge_set[t])
                        THEN FailIf(~Eq(l[k], s.ser.state_of_charge_set[t]), "state of charge differs from its set-point") ELSE {})
           : k \in Steps(cs) }

StoreFails(cs, x, s) ==
  LET p == x.sp[s.id]  e == x.se[s.id]
      nom == Cap(x, "Store", s, "e_nom")
  IN UNION { LET t == T_(cs, k)
                 h == cs.ws[t]
                 b == LevelBefore(cs, s, k, e, s.e_cyclic, StorePerPeriod(cs, s), s.e_initial)
             IN IF ~On(cs, s, k) THEN FailIf(~(Eq(p[k], 0) /\ Eq(e[k], 0)), "store operates while out of service")
                ELSE
                  FailIf(Less(e[k], Mul(A(s, "e_min_pu", t), nom)) \/ Less(Mul(A(s, "e_max_pu", t), nom), e[k]), "store level outside its limits")
                  \cup FailIf(~Eq(e[k], Sub(Mul(Pow(Sub(1, A(s, "standing_loss", t)), h), b), Mul(h, p[k]))),
                              "store level does not follow the storage balance")
           : k \in Steps(cs) }
StorageFails(cs, x) ==
  UNION {SUFails(cs, x, s) : s \in Range(cs.sus)} \cup UNION {StoreFails(cs, x, s) : s \in Range(cs.stores)}
=============================================================================
