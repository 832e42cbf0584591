----------------------------- MODULE Clustering -----------------------------
(***************************************************************************)
(* Spatial clustering of a network by a bus map (C26).                     *)
(*                                                                         *)
(* ev.map      bus -> cluster                                              *)
(* ev.opt      options: aggregated (classes whose assets are aggregated),  *)
(*             carriers, buses (which generators; <<"*">> all), groupers,   *)
(*             factor (of line lengths), scale (costs of links), time       *)
(* ev.custom   class -> attribute -> strategy                              *)
(* ev.old, ev.new  class -> sequence of [id, bus (port -> bus), x (all      *)
(*             attributes as text), q (numbers), s (series, in each         *)
(*             snapshot; constant ones too)]                               *)
(* ev.dist     cluster -> cluster -> distance                              *)
(* ev.linemap  line -> new line                                            *)
(***************************************************************************)
EXTENDS Num, TLC

FailIf(b, msg) == IF b THEN {msg} ELSE {}
Range(f) == {f[i] : i \in DOMAIN f}

(* ------------------------------------------------------------ strategies *)
BusStrategies == [x |-> "mean", y |-> "mean", v_nom |-> "max", v_mag_pu_max |-> "min", v_mag_pu_min |-> "max", generator |-> "blank"]
LineStrategies ==
  [r |-> "reciprocal_voltage_weighted_average", x |-> "reciprocal_voltage_weighted_average", g |-> "voltage_weighted_average", b |-> "voltage_weighted_average",
   terrain_factor |-> "mean", s_min_pu |-> "capacity_weighted_average", s_max_pu |-> "capacity_weighted_average", s_nom |-> "sum", s_nom_min |-> "sum", s_nom_max |-> "sum",
   s_nom_extendable |-> "any", num_parallel |-> "sum", capital_cost |-> "length_capacity_weighted_average", v_ang_min |-> "max", v_ang_max |-> "min",
   lifetime |-> "capacity_weighted_average", build_year |-> "capacity_weighted_average"]
OnePortStrategies ==
  [p_set |-> "sum", q_set |-> "sum", p_nom |-> "sum", p_nom_max |-> "sum", p_nom_min |-> "sum", e_nom |-> "sum", e_nom_max |-> "sum", e_nom_min |-> "sum", weight |-> "sum",
   ramp_limit_up |-> "mean", ramp_limit_down |-> "mean", ramp_limit_start_up |-> "mean", ramp_limit_shut_down |-> "mean", build_year |-> "zero", lifetime |-> "forever", control |-> "blank",
   p_max_pu |-> "capacity_weighted_average", p_min_pu |-> "capacity_weighted_average", capital_cost |-> "capacity_weighted_average", marginal_cost |-> "capacity_weighted_average",
   efficiency |-> "capacity_weighted_average", max_hours |-> "capacity_weighted_average", inflow |-> "sum"]
Defaults(c) == IF c = "Bus" THEN BusStrategies ELSE IF c = "Line" THEN LineStrategies ELSE OnePortStrategies
Strategy(ev, c, attr) ==
  IF c \in DOMAIN ev.custom /\ attr \in DOMAIN ev.custom[c] THEN ev.custom[c][attr]
  ELSE IF attr \in DOMAIN Defaults(c) THEN Defaults(c)[attr] ELSE "consense"

(* ------------------------------------------------------------ values     *)
(* share of each member of a group (none has any: all the same)            *)
Share(G, w(_), i) == LET t == Sum(G, w) IN IF Less(0, t) THEN Div(w(i), t) ELSE Div(1, Cardinality(G))
Weighted(G, w(_), f(_)) == Sum(G, LAMBDA i : LET h == Share(G, w, i) IN IF Eq(h, 0) THEN 0 ELSE Mul(h, f(i)))
MaxOf(G, f(_)) == f(CHOOSE i \in G : \A j \in G : Leq(f(j), f(i)))
MinOf(G, f(_)) == f(CHOOSE i \in G : \A j \in G : Leq(f(i), f(j)))
MeanOf(G, f(_)) == LET H == {i \in G : ~IsNaN(f(i))} IN IF H = {} THEN "NaN" ELSE Div(Sum(H, f), Cardinality(H))
Combine(strategy, G, f(_), w(_), u(_)) ==
  CASE strategy = "sum" -> Sum(G, f)
    [] strategy = "mean" -> MeanOf(G, f)
    [] strategy = "max" -> MaxOf(G, f)
    [] strategy = "min" -> MinOf(G, f)
    [] strategy = "zero" -> 0
    [] strategy = "forever" -> "Infinity"
    [] strategy = "capacity_weighted_average" -> Weighted(G, w, f)
    [] strategy = "weighted_average" -> Weighted(G, u, f)
    [] strategy = "weighted_min" -> MinOf(G, LAMBDA i : Div(f(i), Share(G, u, i)))
    [] strategy = "consense" -> f(CHOOSE i \in G : TRUE)
SameText(G, f(_)) == (\A i, j \in G : f(i) = f(j) /\ f(i) # "nan") \/ \A i \in G : f(i) = "nan"
SameNumber(G, f(_)) == (\A i, j \in G : ~IsNaN(f(i)) /\ f(i) = f(j)) \/ \A i \in G : IsNaN(f(i))

(* ------------------------------------------------------------ groups     *)
Old(ev, c) == IF c \in DOMAIN ev.old THEN ev.old[c] ELSE << >>
New(ev, c) == IF c \in DOMAIN ev.new THEN ev.new[c] ELSE << >>
Cluster(ev, bus) == IF bus = "" THEN "" ELSE ev.map[bus]
BusGroup(ev, cl) == {i \in DOMAIN ev.old.Bus : ev.map[ev.old.Bus[i].id] = cl}
Between(ev) == {i \in DOMAIN Old(ev, "Line") : Cluster(ev, ev.old.Line[i].bus["0"]) # Cluster(ev, ev.old.Line[i].bus["1"])}
Pair(ev, i) == {Cluster(ev, ev.old.Line[i].bus["0"]), Cluster(ev, ev.old.Line[i].bus["1"])}
LineKey(ev, i) == << Pair(ev, i), [g \in Range(ev.opt.groupers) |-> ev.old.Line[i].x[g]] >>
Aggregates(ev, c, i) ==
  LET a == ev.old[c][i] IN
  /\ c \in Range(ev.opt.aggregated)
  /\ c = "Generator" => (ev.opt.carriers = <<"*">> \/ a.carrier \in Range(ev.opt.carriers)) /\ (ev.opt.buses = <<"*">> \/ a.bus[""] \in Range(ev.opt.buses))
AssetKey(ev, c, i) == << Cluster(ev, ev.old[c][i].bus[""]), ev.old[c][i].carrier >>

(* ------------------------------------------------------------ lines      *)
VNomOf(ev, cl) == Combine(Strategy(ev, "Bus", "v_nom"), BusGroup(ev, cl), LAMBDA i : ev.old.Bus[i].q.v_nom, LAMBDA i : 1, LAMBDA i : 1)
BusOf(ev, id) == ev.old.Bus[CHOOSE i \in DOMAIN ev.old.Bus : ev.old.Bus[i].id = id]
NewLength(ev, a) == Mul(ev.opt.factor, ev.dist[Cluster(ev, a.bus["0"])][Cluster(ev, a.bus["1"])])
Stretch(ev, i) == LET a == ev.old.Line[i] IN Div(NewLength(ev, a), a.q.length)
(* (old voltage / new voltage) squared *)
Voltage(ev, i) ==
  LET a == ev.old.Line[i]
      v == Div(BusOf(ev, a.bus["0"]).q.v_nom, MaxQ(VNomOf(ev, Cluster(ev, a.bus["0"])), VNomOf(ev, Cluster(ev, a.bus["1"]))))
  IN Mul(v, v)
LineValue(ev, G, attr, f(_)) ==
  LET st == Strategy(ev, "Line", attr)
      w(i) == ev.old.Line[i].q.s_nom
      (* the impedance of a line of the new length at the new voltage *)
      z(i) == Div(Mul(f(i), Stretch(ev, i)), Voltage(ev, i))
  IN CASE st = "reciprocal_voltage_weighted_average" -> IF \E i \in G : Eq(z(i), 0) THEN 0 ELSE Div(1, Sum(G, LAMBDA i : Div(1, z(i))))
       [] st = "voltage_weighted_average" -> Sum(G, LAMBDA i : Prod3(f(i), Stretch(ev, i), Voltage(ev, i)))
       [] st = "length_capacity_weighted_average" -> Weighted(G, w, LAMBDA i : Mul(f(i), Stretch(ev, i)))
       [] attr = "length" -> NewLength(ev, ev.old.Line[CHOOSE i \in G : TRUE])
       [] OTHER -> Combine(st, G, f, w, LAMBDA i : 1)
AssetValue(ev, c, G, attr, f(_)) ==
  Combine(Strategy(ev, c, attr), G, f, LAMBDA i : IF c = "Store" THEN ev.old[c][i].q.e_nom ELSE IF "p_nom" \in DOMAIN ev.old[c][i].q THEN ev.old[c][i].q.p_nom ELSE 0,
          LAMBDA i : IF "weight" \in DOMAIN ev.old[c][i].q THEN ev.old[c][i].q.weight ELSE 1)

(* ------------------------------------------------------------ comparison of a group with the asset made of it *)
(* Numbers and texts of an asset: numbers are compared as such.            *)
Text(ev, c, G, attr, n) ==
  LET f(i) == ev.old[c][i].x[attr] st == Strategy(ev, c, attr) IN
  CASE st = "blank" -> TRUE
    [] st = "any" -> n = IF \E i \in G : f(i) = "True" THEN "True" ELSE "False"
    [] OTHER -> n = f(CHOOSE i \in G : TRUE)
Close(want, got) == IF IsNaN(want) \/ IsNaN(got) THEN IsNaN(want) /\ IsNaN(got) ELSE Eq(want, got)
(* Years are whole numbers. *)
CloseFor(attr, want, got) == IF attr = "build_year" THEN EqTol(want, got, 1) ELSE Close(want, got)
ValueOf(ev, c, G, attr, f(_)) ==
  IF c = "Line" THEN LineValue(ev, G, attr, f)
  ELSE IF c = "Bus" THEN Combine(Strategy(ev, c, attr), G, f, LAMBDA i : 1, LAMBDA i : 1)
  ELSE AssetValue(ev, c, G, attr, f)
Made(ev, c, G, new) ==
  LET some == ev.old[c][CHOOSE i \in G : TRUE] IN
     {c \o " " \o attr : attr \in {a \in DOMAIN some.x \ (DOMAIN some.q \cup DOMAIN some.s) : a \in DOMAIN new.x /\ ~Text(ev, c, G, a, new.x[a])}}
     \cup {c \o " " \o attr \o ": " \o ToString(new.q[attr]) \o " instead of " \o ToString(ValueOf(ev, c, G, attr, LAMBDA i : ev.old[c][i].q[attr]))
           : attr \in {a \in DOMAIN some.q : ~CloseFor(a, ValueOf(ev, c, G, a, LAMBDA i : ev.old[c][i].q[a]), new.q[a])}}
     \cup {c \o " " \o attr \o " over time: " \o ToString(new.s[attr]) : attr \in {a \in DOMAIN some.s : \E k \in DOMAIN some.s[a] :
            ~Close(ValueOf(ev, c, G, a, LAMBDA i : ev.old[c][i].s[a][k]), new.s[a][k])}}
     \cup {c \o " " \o attr \o " is missing" : attr \in (DOMAIN some.x) \ (DOMAIN new.x)}
(* Assets whose attributes have to agree but do not. *)
Disagrees(ev, c, G) ==
  LET some == ev.old[c][CHOOSE i \in G : TRUE] IN
  \E a \in DOMAIN some.x : a # "length" /\ Strategy(ev, c, a) = "consense" /\
      (IF a \in DOMAIN some.s THEN \E k \in DOMAIN some.s[a] : ~SameNumber(G, LAMBDA i : ev.old[c][i].s[a][k])
       ELSE ~SameText(G, LAMBDA i : ev.old[c][i].x[a]))

Groups(ev, c) ==
  CASE c = "Bus" -> { BusGroup(ev, cl) : cl \in Range(ev.map) }
    [] c = "Line" -> { {j \in Between(ev) : LineKey(ev, j) = LineKey(ev, i)} : i \in Between(ev) }
    [] OTHER -> LET A == {i \in DOMAIN Old(ev, c) : Aggregates(ev, c, i)} IN { {j \in A : AssetKey(ev, c, j) = AssetKey(ev, c, i)} : i \in A }
OnePorts == {"Generator", "Load", "StorageUnit", "Store", "ShuntImpedance"}

(* ------------------------------------------------------------ assets which are kept *)
Moved(ev, a) == [p \in DOMAIN a.bus |-> Cluster(ev, a.bus[p])]
KeptLink(ev, a) == Cardinality({Cluster(ev, a.bus[p]) : p \in DOMAIN a.bus} \ {""}) > 1
LinkLength(ev, a) == IF Less(0, a.q.length) THEN Mul(ev.opt.factor, ev.dist[Cluster(ev, a.bus["0"])][Cluster(ev, a.bus["1"])]) ELSE 0
LinkNumber(ev, a, attr) ==
  IF attr = "length" THEN LinkLength(ev, a)
  ELSE IF attr = "capital_cost" /\ ev.opt.scale /\ Less(0, a.q.length) THEN Mul(a.q.capital_cost, Div(LinkLength(ev, a), a.q.length))
  ELSE a.q[attr]
Kept(ev, c, a, new) ==
     FailIf(new.bus # Moved(ev, a), c \o " " \o a.id \o " is at " \o ToString(new.bus) \o " instead of " \o ToString(Moved(ev, a)))
     \cup {c \o " " \o a.id \o " " \o attr : attr \in {t \in DOMAIN a.x \ (DOMAIN a.q \cup DOMAIN a.s) : t \notin DOMAIN new.x \/ (Strategy(ev, c, t) # "blank" /\ new.x[t] # a.x[t])}}
     \cup {c \o " " \o a.id \o " " \o attr : attr \in {t \in DOMAIN a.q : t \notin DOMAIN new.q \/ ~Close(IF c = "Link" THEN LinkNumber(ev, a, t) ELSE a.q[t], new.q[t])}}
     \cup {c \o " " \o a.id \o " " \o attr \o " over time" : attr \in {t \in DOMAIN a.s : \E k \in DOMAIN a.s[t] : ~Close(a.s[t][k], new.s[t][k])}}

(* ------------------------------------------------------------ totals     *)
Total(ev, tab, c, f(_)) == Sum(DOMAIN tab[c], LAMBDA i : f(tab[c][i]))
TotalFails(ev, c) ==
  LET T(name, f(_)) == FailIf(~Eq(Total(ev, ev.old, c, f), Total(ev, ev.new, c, f)), "total " \o name \o " of " \o c \o " is not conserved")
      K == 1..ev.steps IN
  IF c \notin DOMAIN ev.old \/ c \notin DOMAIN ev.new \/ c \in DOMAIN ev.custom THEN {}
  ELSE CASE c = "Load" -> UNION {T("load", LAMBDA a : Mul(a.q.sign, a.s.p_set[k])) : k \in K}
         [] c = "Generator" -> T("capacity", LAMBDA a : a.q.p_nom) \cup UNION {T("available power", LAMBDA a : Mul(a.q.p_nom, a.s.p_max_pu[k])) : k \in K}
         [] c = "StorageUnit" -> T("capacity", LAMBDA a : a.q.p_nom) \cup T("energy capacity", LAMBDA a : Mul(a.q.p_nom, a.q.max_hours)) \cup UNION {T("inflow", LAMBDA a : a.s.inflow[k]) : k \in K}
         [] c = "Store" -> T("capacity", LAMBDA a : a.q.e_nom)
         [] OTHER -> {}

(* ------------------------------------------------------------ the answer of the real code *)
NamesOf(s) == {s[i].id : i \in DOMAIN s}
Named(s, id) == s[CHOOSE i \in DOMAIN s : s[i].id = id]
ClusteringFails(ev) ==
  LET refuse == \E c \in {"Bus", "Line"} \cup Range(ev.opt.aggregated) : \E G \in Groups(ev, c) : Disagrees(ev, c, G)
      clusters == Range(ev.map)
  IN
  IF ev.out # "ok" THEN FailIf(~refuse, "the clustering is refused")
  ELSE IF refuse THEN {"attributes which do not agree are aggregated"}
  ELSE
     FailIf(NamesOf(ev.new.Bus) # clusters \/ Len(ev.new.Bus) # Cardinality(clusters), "the buses are not the clusters")
     \cup UNION { IF cl \notin NamesOf(ev.new.Bus) THEN {} ELSE Made(ev, "Bus", BusGroup(ev, cl), Named(ev.new.Bus, cl)) : cl \in clusters }
     (* lines *)
     \cup FailIf(DOMAIN ev.linemap # {ev.old.Line[i].id : i \in Between(ev)}, "the line map is not of the lines between clusters")
     \cup FailIf(Len(New(ev, "Line")) # Cardinality(Groups(ev, "Line")), "not one line for each pair of clusters")
     \cup UNION { LET news == {ev.linemap[ev.old.Line[i].id] : i \in {j \in G : ev.old.Line[j].id \in DOMAIN ev.linemap}} IN
                  IF Cardinality(news) # 1 THEN {"parallel lines are mapped to different lines"}
                  ELSE LET id == CHOOSE m \in news : TRUE IN
                       IF id \notin NamesOf(New(ev, "Line")) THEN {"a line is missing"}
                       ELSE LET new == Named(ev.new.Line, id) IN
                            FailIf({new.bus["0"], new.bus["1"]} # Pair(ev, CHOOSE i \in G : TRUE), "a line is at the wrong clusters") \cup Made(ev, "Line", G, new)
                  : G \in Groups(ev, "Line") }
     (* assets at a single bus *)
     \cup UNION { LET kept == {i \in DOMAIN Old(ev, c) : ~Aggregates(ev, c, i)} IN
             FailIf(Len(New(ev, c)) # Cardinality(kept) + Cardinality(Groups(ev, c)), "number of " \o c)
             \cup UNION { IF ev.old[c][i].id \notin NamesOf(New(ev, c)) THEN {c \o " " \o ev.old[c][i].id \o " is lost"} ELSE Kept(ev, c, ev.old[c][i], Named(ev.new[c], ev.old[c][i].id)) : i \in kept }
             \cup UNION { LET k == AssetKey(ev, c, CHOOSE i \in G : TRUE)
                              N == {i \in DOMAIN New(ev, c) : ev.new[c][i].id \notin {ev.old[c][j].id : j \in kept} /\ << ev.new[c][i].bus[""], ev.new[c][i].carrier >> = k} IN
                          IF Cardinality(N) # 1 THEN {"not one " \o c \o " of each carrier in each cluster"} ELSE Made(ev, c, G, ev.new[c][CHOOSE i \in N : TRUE]) : G \in Groups(ev, c) }
             \cup TotalFails(ev, c)
             : c \in OnePorts }
     (* links *)
     \cup FailIf(NamesOf(New(ev, "Link")) # {a.id : a \in {Old(ev, "Link")[i] : i \in {j \in DOMAIN Old(ev, "Link") : KeptLink(ev, Old(ev, "Link")[j])}}}, "the links are not those between clusters")
     \cup UNION { Kept(ev, "Link", a, Named(ev.new.Link, a.id)) : a \in {Old(ev, "Link")[i] : i \in {j \in DOMAIN Old(ev, "Link") : Old(ev, "Link")[j].id \in NamesOf(New(ev, "Link"))}} }
     (* everything else *)
     \cup {name \o " is not carried over" : name \in {m \in DOMAIN ev.rest : ev.rest[m] # ev.restnew[m]}}
     \cup FailIf(ev.changed, "the original network is modified")
     \cup FailIf(ev.shared # "", "a change of the clustered network changes the original network: " \o ev.shared)

(* ------------------------------------------------------------ bus maps   *)
(* ev.buses, ev.edges (pairs of buses), ev.map; ev.kind, ev.wanted         *)
Nbrs(E, S, b) == {c \in S : c # b /\ ({b, c} \in E)}
RECURSIVE Grow(_, _)
Grow(E, S) == LET T == S \cup UNION {e \in E : e \cap S # {}} IN IF T = S THEN S ELSE Grow(E, T)
RECURSIVE Core(_, _)
Core(E, S) == LET D == {b \in S : Cardinality(Nbrs(E, S, b)) <= 1} IN IF D = {} THEN S ELSE Core(E, S \ D)
BusmapFails(ev) ==
  LET B == Range(ev.buses)
      E == {{ev.edges[i][1], ev.edges[i][2]} : i \in {j \in DOMAIN ev.edges : ev.edges[j][1] # ev.edges[j][2]}}
      core == Core(E, B)
      (* a bus outside of the core hangs on the only core bus it reaches without passing another core bus *)
      Hangs(b) == LET F == {e \in E : e \cap core = {}} tree == Grow(F, {b}) IN UNION {Nbrs(E, core, t) : t \in tree}
  IN
  FailIf(DOMAIN ev.map # B, "not every bus is mapped")
  \cup IF DOMAIN ev.map # B THEN {}
       ELSE IF ev.kind # "stubs" THEN FailIf(Cardinality(Range(ev.map)) # ev.wanted, "the number of clusters is " \o ToString(Cardinality(Range(ev.map))) \o " instead of " \o ToString(ev.wanted))
            \cup (IF ev.kind # "hac" THEN {} ELSE
                  {"cluster " \o ToString(cl) \o " is not connected" : cl \in {d \in Range(ev.map) : LET M == {b \in B : ev.map[b] = d} IN Grow({e \in E : e \subseteq M}, {CHOOSE b \in M : TRUE}) # M}})
       ELSE {"bus " \o b \o " of the meshed part is moved" : b \in {c \in core : ev.map[c] # c}}
            \cup {"bus " \o b \o " is not moved to where its stub is connected" : b \in {c \in B \ core : Hangs(c) # {} /\ ev.map[c] \notin Hangs(c)}}
            \cup {"tree of bus " \o b \o " is not reduced to a single one of its buses" : b \in {c \in B \ core : Hangs(c) = {} /\ (ev.map[c] \notin Grow(E, {c}) \/ \E d \in Grow(E, {c}) : ev.map[d] # ev.map[c])}}
=============================================================================
