------------------------------ MODULE LossDesign ------------------------------
(* What the loss rules of Grid admit (C16): for every resistance, capacity,   *)
(* number of segments, flow and loss of one branch.                           *)
EXTENDS Grid, TLC
CONSTANTS MaxR, Steps_
VARIABLES r, n, cap, f, l
vars == <<r, n, cap, f, l>>
Segments == {1, 2, 4}
Init == r \in 1..MaxR /\ n \in Segments /\ cap \in {Steps_, 2 * Steps_} /\ f = -cap /\ l = 0
Next == UNCHANGED <<r, n, cap>> /\ \/ l < r * cap * cap + 1 /\ l' = l + 1 /\ f' = f
                                   \/ l = 0 /\ f < cap /\ f' = f + 1 /\ l' = 0
Spec == Init /\ [][Next]_vars
Line_ == [id |-> "l", bus0 |-> "a", bus1 |-> "b", r |-> r, x |-> 1, s_nom |-> cap, s_max_pu |-> 1, s_nom_extendable |-> FALSE,
          active |-> TRUE, build_year |-> 0, lifetime |-> 1, ser |-> << >>]
Cs == [sel |-> <<1>>, per |-> <<0>>, multi |-> FALSE, lines |-> <<Line_>>, trafos |-> << >>, losses |-> n,
       buses |-> <<[id |-> "a", v_nom |-> 1, carrier |-> "AC"], [id |-> "b", v_nom |-> 1, carrier |-> "AC"]>>]
At(ff, ll) == LossFails(Cs, [flow |-> [Line |-> [i \in {"l"} |-> <<ff>>]], loss |-> [Line |-> [i \in {"l"} |-> <<ll>>]]]) = {}
Admitted == At(f, l)
Quad == r * f * f
Width == cap \div n
(* the loss of the physics is always admitted, in both directions alike       *)
Physics == l = 0 => At(f, Quad)
Symmetric == Admitted <=> At(-f, l)
(* more is admitted up to the loss at full capacity, and no more              *)
Upward == Admitted /\ l < r * cap * cap => At(f, l + 1)
Capped == Admitted => l <= r * cap * cap
(* never less than the tangents; exact at the ends of the segments; the error *)
(* elsewhere is at most that of half a segment                                *)
Exact == (Admitted /\ f # 0 /\ f % Width = 0) => l >= Quad
Close == Admitted => 4 * (Quad - l) <= r * Width * Width
NoLoss == f = 0 /\ l = 0 => Admitted
=============================================================================
