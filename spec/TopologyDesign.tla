---------------------------- MODULE TopologyDesign ----------------------------
(* The partition of Topology, built branch by branch, is that of reachability *)
(* for every network with up to MaxE branches between NB buses (C07); there   *)
(* are always branches - buses + parts independent cycles; neither depends on *)
(* the order of the branches.                                                 *)
EXTENDS Topology
CONSTANTS NB, MaxE
VARIABLES P, es
Buses == {"b" \o ToString(i) : i \in 1..NB}
Edge == {e \in [from : Buses, to : Buses, on : BOOLEAN] : e.from # e.to}
Init == P = {{b} : b \in Buses} /\ es = << >>
Next == Len(es) < MaxE /\ \E e \in Edge : es' = Append(es, e) /\ P' = IF e.on THEN Merge(P, e) ELSE P
Spec == Init /\ [][Next]_<<P, es>>
On_ == {i \in DOMAIN es : es[i].on}
RECURSIVE Reach(_)
Reach(S) == LET more == S \cup {b \in Buses : \E i \in On_ : {es[i].from, es[i].to} \cap S # {} /\ b \in {es[i].from, es[i].to}}
            IN IF more = S THEN S ELSE Reach(more)
Ev == [buses |-> [i \in 1..NB |-> [name |-> "b" \o ToString(i)]], branches |-> es]
Partition == P = {Reach({b}) : b \in Buses} /\ P = Parts(Ev)
Order == \A i, j \in DOMAIN es : Parts([Ev EXCEPT !.branches = [es EXCEPT ![i] = es[j], ![j] = es[i]]]) = P
(* the cycle space over {0, 1}: sets of branches which meet every bus evenly  *)
Even(S) == \A b \in Buses : Cardinality({i \in S : b \in {es[i].from, es[i].to}}) % 2 = 0
Cycles_ == Cardinality({S \in SUBSET On_ : Even(S)}) = 2 ^ (Cardinality(On_) - NB + Cardinality(P))
=============================================================================
