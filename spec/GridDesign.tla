------------------------------ MODULE GridDesign ------------------------------
(* What the rules of Grid mean, for every small network: each state is one    *)
(* network of three or four buses with integer reactances and one assignment  *)
(* of flows; the flows are changed branch by branch.                          *)
EXTENDS Grid, TLC
CONSTANTS NB, MaxE, MaxF, MaxX
VARIABLES edges, flows

Buses == 1..NB
Edge == [a : Buses, b : Buses, x : 1..MaxX]
Proper(e) == e.a # e.b
(* networks up to the order of branches: ends and reactances ascend           *)
Key(e) == e.a * 100 + e.b * 10 + e.x
Graphs == UNION {{s \in [1..m -> {e \in Edge : Proper(e)}] : \A i \in 1..(m - 1) : Key(s[i]) <= Key(s[i + 1])} : m \in 1..MaxE}
Init == edges \in Graphs /\ flows = [i \in DOMAIN edges |-> 0]
Next == /\ \E i \in DOMAIN edges : flows[i] < MaxF /\ flows' = [flows EXCEPT ![i] = @ + 1]
        /\ UNCHANGED edges
Spec == Init /\ [][Next]_<<edges, flows>>

(* the network as a case of Assets *)
LineRec(i) == [id |-> ToString(i), bus0 |-> ToString(edges[i].a), bus1 |-> ToString(edges[i].b), x |-> edges[i].x, r |-> edges[i].x,
               s_nom |-> 1, s_nom_extendable |-> FALSE, active |-> TRUE, build_year |-> 0, lifetime |-> 1, ser |-> << >>]
Cs == [sel |-> <<1>>, per |-> <<0>>, multi |-> FALSE, lines |-> [i \in DOMAIN edges |-> LineRec(i)], trafos |-> << >>, losses |-> 0,
       buses |-> [b \in Buses |-> [id |-> ToString(b), v_nom |-> 1, carrier |-> "AC"]]]
(* flows count from -1 *)
F(i) == flows[i] - 1
X == [flow |-> [Line |-> [n \in {ToString(i) : i \in DOMAIN edges} |-> <<F(CHOOSE i \in DOMAIN edges : ToString(i) = n)>>]]]

(* Kirchhoff's voltage law holds iff there are angles at the buses            *)
Range_ == -(NB * MaxX * MaxF)..(NB * MaxX * MaxF)
Explains(t) == \A i \in DOMAIN edges : t[edges[i].a] - t[edges[i].b] = edges[i].x * F(i)
RECURSIVE Find(_, _)
Find(t, rest) ==           \* search for angles, bus by bus, as far as determined
  IF rest = {} THEN Explains(t)
  ELSE LET known == Buses \ rest
           e == {i \in DOMAIN edges : (edges[i].a \in rest) # (edges[i].b \in rest)}
       IN IF e = {} THEN Find(t, rest \ {CHOOSE b \in rest : TRUE})
          ELSE LET i == CHOOSE i \in e : TRUE
               IN IF edges[i].a \in rest THEN Find([t EXCEPT ![edges[i].a] = t[edges[i].b] + edges[i].x * F(i)], rest \ {edges[i].a})
                  ELSE Find([t EXCEPT ![edges[i].b] = t[edges[i].a] - edges[i].x * F(i)], rest \ {edges[i].b})
HasAngles == IF NB <= 3 /\ MaxX * MaxF <= 2 THEN \E t \in [Buses -> Range_] : Explains(t) ELSE Find([b \in Buses |-> 0], Buses)
Kvl == KVLFails(Cs, X) = {}
Angular == Kvl <=> HasAngles

(* ... iff the flows around every closed walk of distinct branches sum to zero *)
Inj(f, b) == SumFcn([i \in DOMAIN edges |-> f[i] * ((IF edges[i].a = b THEN 1 ELSE 0) - (IF edges[i].b = b THEN 1 ELSE 0))])
Signed == [DOMAIN edges -> {-1, 0, 1}]
Closed(c) == \A b \in Buses : Eq(Inj(c, b), 0)
Cyclic == Kvl <=> \A c \in Signed : Closed(c) => Eq(SumFcn([i \in DOMAIN edges |-> c[i] * edges[i].x * F(i)]), 0)

(* injections and the voltage law determine the flows: no other flows within  *)
(* the box have the same injections.  This is what makes the checks of power  *)
(* flows and contingencies against equations complete.                        *)
Unique == Kvl => \A g \in [DOMAIN edges -> -1..(MaxF - 1)] :
   LET Y == [flow |-> [Line |-> [n \in {ToString(i) : i \in DOMAIN edges} |-> <<g[CHOOSE i \in DOMAIN edges : ToString(i) = n]>>]]] IN
   (g # [i \in DOMAIN edges |-> F(i)] /\ \A b \in Buses : Eq(Inj(g, b), Inj([i \in DOMAIN edges |-> F(i)], b))) => KVLFails(Cs, Y) # {}
(* a tree obeys the law whatever flows *)
Tree == \A i \in DOMAIN edges : ~\E c \in Signed : c[i] # 0 /\ Closed(c)
Radial == Tree => Kvl
=============================================================================
