---------------------------- MODULE HorizonDesign ----------------------------
(* The rules of Units and Storage speak about whole series.  Here the same    *)
(* series are built snapshot by snapshot, by transition systems which only    *)
(* know the present state; both must accept the same behaviours, and cutting  *)
(* the horizon anywhere, carrying the state over, must not matter (C12-C14,   *)
(* C20).                                                                      *)
EXTENDS Units, Storage, TLC
CONSTANTS T, What
VARIABLES a, ser, state, ok
vars == <<a, ser, state, ok>>

Base(n) == [T |-> n, per |-> [t \in 1..n |-> 0], ws |-> [t \in 1..n |-> IF What = "level" /\ t = 2 THEN 2 ELSE 1], multi |-> FALSE, sel |-> [t \in 1..n |-> t]]
Tail_(n, k) == [Base(n) EXCEPT !.sel = [t \in 1..(n - k) |-> t + k]]
Common == [id |-> "u", active |-> TRUE, build_year |-> 0, lifetime |-> 1, ser |-> << >>]
Col(i) == [k \in DOMAIN ser |-> ser[k][i]]

(* ------------------------------------------------------------ units        *)
Units_ == { [p_nom |-> 1, p_nom_extendable |-> FALSE, p_min_pu |-> 0, p_max_pu |-> 2, committable |-> c, hist_p |-> 0, hist_status |-> << >>,
             ramp_limit_up |-> r, ramp_limit_down |-> d, ramp_limit_start_up |-> su, ramp_limit_shut_down |-> sd,
             min_up_time |-> mu, min_down_time |-> md, up_time_before |-> b, down_time_before |-> 1 - b] @@ Common
            : c \in BOOLEAN, r \in 0..2, d \in 1..2, su \in 1..2, sd \in {0, 2}, mu \in 1..2, md \in 1..2, b \in 0..1 }
UnitStep == \E p \in 0..2, st \in 0..1, su \in 0..1, sd \in 0..1 :
  /\ a.committable \/ (st = 1 /\ su = 0 /\ sd = 0)
  /\ LET was == state.on
         on == st = 1
         up == IF ~a.committable THEN a.ramp_limit_up
               ELSE IF was THEN (IF on THEN a.ramp_limit_up ELSE a.ramp_limit_up - a.ramp_limit_start_up)
               ELSE IF on THEN a.ramp_limit_start_up ELSE 0
         dn == IF ~a.committable THEN a.ramp_limit_down
               ELSE IF was THEN (IF on THEN a.ramp_limit_down ELSE a.ramp_limit_shut_down)
               ELSE IF on THEN a.ramp_limit_down - a.ramp_limit_shut_down ELSE 0
         first == ser = << >>
         good == /\ p <= 2 * st
                 /\ first \/ (p - state.p <= up /\ state.p - p <= dn)
                 /\ a.committable => /\ (on # was) => IF on THEN state.age >= a.min_down_time ELSE state.age >= a.min_up_time
                                     /\ su >= (IF on /\ ~was THEN 1 ELSE 0) /\ sd >= (IF was /\ ~on THEN 1 ELSE 0)
     IN /\ ser' = Append(ser, <<p, st, su, sd>>)
        /\ state' = [on |-> on, p |-> p, age |-> IF on = was THEN state.age + 1 ELSE 1]
        /\ ok' = (ok /\ good)
UnitCase(n) == [Base(n) EXCEPT !.sel = @]
UnitX(f(_)) == [gp |-> [i \in {"u"} |-> f(1)]]
URules(cs, u, p, st, su, sd) ==
  OutputFails(cs, u, "Generator", p, st, << >>) \cup RampFails(cs, u, "Generator", p, st, << >>)
  \cup (IF u.committable THEN StatusFails(cs, u, st, su, sd) ELSE {})
UnitWhole == URules(Base(Len(ser)), a, Col(1), Col(2), Col(3), Col(4)) = {}
Cut(s, i, j) == SubSeq(s, i, j)
UnitSplit(k) ==
  LET n == Len(ser)
      head == URules(Base(k), a, Cut(Col(1), 1, k), Cut(Col(2), 1, k), Cut(Col(3), 1, k), Cut(Col(4), 1, k))
      later == [a EXCEPT !.hist_p = Col(1)[k], !.hist_status = Cut(Col(2), 1, k)]
      tail == URules(Tail_(n, k), later, Cut(Col(1), k + 1, n), Cut(Col(2), k + 1, n), Cut(Col(3), k + 1, n), Cut(Col(4), k + 1, n))
  IN head = {} /\ tail = {}

(* ------------------------------------------------------------ levels       *)
Stores_ == { [p_nom |-> 1, p_nom_extendable |-> FALSE, p_min_pu |-> -1, p_max_pu |-> 1, max_hours |-> 3, standing_loss |-> l, inflow |-> f,
              efficiency_store |-> 1, efficiency_dispatch |-> 1, state_of_charge_initial |-> i, cyclic_state_of_charge |-> c,
              cyclic_state_of_charge_per_period |-> FALSE, state_of_charge_initial_per_period |-> FALSE] @@ Common
             : l \in 0..1, f \in 0..1, i \in {0, 2}, c \in BOOLEAN }
StoreStep == \E d \in 0..1, c \in 0..1, w \in 0..1 :
  LET h == Base(T).ws[Len(ser) + 1]
      lev == (1 - a.standing_loss) * state.level + h * (c + a.inflow - d - w)
  IN /\ w <= a.inflow /\ lev \in 0..3
     /\ ser' = Append(ser, <<d, c, lev, w>>)
     /\ state' = [state EXCEPT !.level = lev]
     /\ ok' = ok
SURules(cs, s, r(_)) == SUFails(cs, [ud |-> [i \in {"u"} |-> r(1)], us |-> [i \in {"u"} |-> r(2)], soc |-> [i \in {"u"} |-> r(3)], spill |-> [i \in {"u"} |-> r(4)]], s)
(* a guessed start level has to be the last one when the level is cyclic (if  *)
(* everything is lost at once the guess does not matter)                     *)
StoreWhole == SURules(Base(Len(ser)), a, Col) = {}
StoreAccepts == ~a.cyclic_state_of_charge \/ state.level = state.start
StoreSplit(k) ==
  LET n == Len(ser)
      headc(i) == Cut(Col(i), 1, k)
      tailc(i) == Cut(Col(i), k + 1, n)
      free == [a EXCEPT !.cyclic_state_of_charge = FALSE, !.state_of_charge_initial = state.start]
      later == [a EXCEPT !.cyclic_state_of_charge = FALSE, !.state_of_charge_initial = Col(3)[k]]
  IN SURules(Base(k), free, headc) = {} /\ SURules(Tail_(n, k), later, tailc) = {}
(* nothing is lost or made: what has come in is in the store or has left      *)
Conserved == a.standing_loss = 0 =>
  state.level - state.start = SumSeq([k \in DOMAIN ser |-> Base(T).ws[k] * (ser[k][2] + a.inflow - ser[k][1] - ser[k][4])])

(* ------------------------------------------------------------ the system   *)
Init == /\ ser = << >> /\ ok = TRUE
        /\ IF What = "unit"
           THEN a \in Units_ /\ state = [on |-> a.up_time_before > 0, p |-> 0, age |-> IF a.up_time_before > 0 \/ a.down_time_before > 0 THEN 1 ELSE Forever]
           ELSE a \in Stores_ /\ \E g \in (IF a.cyclic_state_of_charge THEN 0..3 ELSE {a.state_of_charge_initial}) : state = [level |-> g, start |-> g]
Next == /\ Len(ser) < T /\ ok /\ UNCHANGED a
        /\ IF What = "unit" THEN UnitStep ELSE StoreStep
Spec == Init /\ [][Next]_vars
Same == ser # << >> => IF What = "unit" THEN UnitWhole <=> ok ELSE (StoreAccepts => StoreWhole) /\ (StoreWhole /\ a.standing_loss = 0 => StoreAccepts) /\ Conserved
Splits == \A k \in 1..(Len(ser) - 1) : IF What = "unit" THEN UnitSplit(k) <=> ok ELSE StoreSplit(k)
(* the rules admit no level but the one the transition leads to               *)
Determined == (What = "level" /\ ser # << >> /\ ~a.cyclic_state_of_charge) =>
  \A v \in 0..3 : v # state.level =>
     LET col(i) == IF i = 3 THEN [Col(3) EXCEPT ![Len(ser)] = v] ELSE Col(i) IN SURules(Base(Len(ser)), a, col) # {}
=============================================================================
