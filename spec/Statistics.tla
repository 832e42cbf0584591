----------------------------- MODULE Statistics -----------------------------
(***************************************************************************)
(* What every statistic of a network means (C24).                          *)
(*                                                                         *)
(* A network is given by its tables:                                       *)
(*   ev.w       weightings [generators, stores, objective], one per snapshot*)
(*   ev.per     the investment period of each snapshot, ev.years all of them*)
(*   ev.multi   whether there are investment periods                       *)
(*   ev.buses   bus -> [carrier, country, location, unit]                  *)
(*   ev.nice    carrier -> its nice name (its own name if it has none)     *)
(*   ev.price   bus -> price in each snapshot                              *)
(*   ev.assets  sequence of [c, id, carrier, active, build_year, lifetime, *)
(*              ports, bus, eff, v (attributes), s (series), cols, ...]    *)
(* A call is given by its arguments; ev.rows is the table it returned.     *)
(***************************************************************************)
EXTENDS Num, TLC

FailIf(b, msg) == IF b THEN {msg} ELSE {}
Range(f) == {f[i] : i \in DOMAIN f}

Branches == {"Line", "Transformer", "Link"}
Nom(c) == IF c \in {"Line", "Transformer"} THEN "s_nom" ELSE IF c = "Store" THEN "e_nom" ELSE "p_nom"
HasNom(c) == c \in {"Generator", "Line", "Transformer", "Link", "Store", "StorageUnit"}

InYear(ev, a, y) == a.active /\ (~ev.multi \/ (Leq(a.build_year, y) /\ Less(y, Add(a.build_year, a.lifetime))))

(* ------------------------------------------------------------ weightings *)
Weight(ev, c) == IF c = "Generator" THEN ev.w.generators ELSE IF c \in {"StorageUnit", "Store"} THEN ev.w.stores ELSE ev.w.objective

(* ------------------------------------------------------------ columns    *)
(* A table of numbers that do not depend on time has a single column, or   *)
(* one for each investment period.  So has a table of numbers aggregated   *)
(* over time; otherwise it has one for each snapshot.                      *)
Timed == {"opex", "system_cost", "supply", "withdrawal", "transmission", "energy_balance", "curtailment", "capacity_factor", "revenue", "market_value"}
ColumnsOf(ev, aggt) == IF aggt = "none" THEN DOMAIN ev.per ELSE IF ev.multi THEN DOMAIN ev.years ELSE {1}
StepsOf(ev, aggt, col) == IF aggt = "none" THEN {col} ELSE IF ev.multi THEN {k \in DOMAIN ev.per : ev.per[k] = ev.years[col]} ELSE DOMAIN ev.per
YearOf(ev, aggt, col) == IF ~ev.multi THEN 0 ELSE IF aggt = "none" THEN ev.per[col] ELSE ev.years[col]
OverTime(ev, f(_), w, aggt, col) ==
  LET S == StepsOf(ev, aggt, col) IN
  IF aggt = "none" THEN f(col)
  ELSE LET t == Sum(S, LAMBDA k : Mul(w[k], f(k))) IN IF aggt = "mean" THEN Div(t, Sum(S, LAMBDA k : w[k])) ELSE t

(* ------------------------------------------------------------ values of a single asset, at a port *)
Has(a, attr) == attr \in DOMAIN a.s
Sign(a) == IF a.c \in Branches THEN -1 ELSE IF "sign" \in DOMAIN a.v THEN a.v.sign ELSE 1
(* Power that the asset injects at the bus of the port. *)
Injection(a, port, k) == Mul(Sign(a), a.s["p" \o port][k])
(* Expressions over the variables of an optimisation (ev.linear, C25) take  *)
(* the direction of what the asset does when its variable is positive.      *)
Coefficient(ev, a, port, k) == IF a.c \in Branches THEN a.k[port][k] ELSE Sign(a)
PartOf(ev, a, port, k, direction) ==
  LET v == Injection(a, port, k) IN
  IF ev.linear
  THEN IF direction = "supply" THEN (IF Less(0, Coefficient(ev, a, port, k)) THEN v ELSE 0)
       ELSE IF direction = "withdrawal" THEN (IF Less(Coefficient(ev, a, port, k), 0) THEN NegQ(v) ELSE 0)
       ELSE v
  ELSE IF direction = "supply" THEN MaxQ(v, 0) ELSE IF direction = "withdrawal" THEN NegQ(MinQ(v, 0)) ELSE v
Clip(ev, v) == IF ev.linear THEN v ELSE MaxQ(v, 0)
Operation(a, k) == IF a.c \in Branches THEN a.s["p0"][k] ELSE IF a.c = "Store" THEN a.s["e"][k] ELSE a.s["p"][k]
(* the amount that a cost is paid for *)
Amount(a, type, k) ==
  LET p == IF a.c = "Link" THEN "p0" ELSE IF a.c = "StorageUnit" THEN "p_dispatch" ELSE "p" IN
  CASE type = "marginal_cost" -> a.s[p][k]
    [] type = "marginal_cost_quadratic" -> Mul(a.s[p][k], a.s[p][k])
    [] type = "marginal_cost_storage" -> IF a.c = "Store" THEN a.s["e"][k] ELSE a.s["state_of_charge"][k]
    [] type = "spill_cost" -> a.s["spill"][k]
    [] type = "start_up_cost" -> a.s["start_up"][k]
    [] type = "shut_down_cost" -> a.s["shut_down"][k]
    [] type = "stand_by_cost" -> a.s["status"][k]
CostTypes(c) ==
  CASE c = "StorageUnit" -> {"marginal_cost", "marginal_cost_quadratic", "marginal_cost_storage", "spill_cost"}
    [] c = "Store" -> {"marginal_cost", "marginal_cost_quadratic", "marginal_cost_storage"}
    [] c \in {"Generator", "Link"} -> {"marginal_cost", "marginal_cost_quadratic", "start_up_cost", "shut_down_cost", "stand_by_cost"}
    [] OTHER -> {}
UnitCosts == {"start_up_cost", "shut_down_cost", "stand_by_cost"}
Ones(ev) == [k \in DOMAIN ev.per |-> 1]
AssetOpex(ev, a, col) ==
  Sum({t \in CostTypes(a.c) \cap Range(ev.costtypes) : t \notin UnitCosts \/ a.v.committable},
      LAMBDA t : OverTime(ev, LAMBDA k : Mul(a.s[t][k], Amount(a, t, k)), IF t \in {"start_up_cost", "shut_down_cost"} THEN Ones(ev) ELSE ev.w.objective, ev.aggt, col))
Capacity(ev, a, port, nom, atport) ==
  LET e == IF atport = "first" THEN AbsQ(a.eff[port]) ELSE a.eff[port] IN
  Mul(Mul(nom, e), IF ev.storage /\ a.c = "StorageUnit" THEN a.v.max_hours ELSE 1)
Transmits(ev, a) ==
  a.c \in Branches /\ \E bc \in {ev.buses[b].carrier : b \in DOMAIN ev.buses} :
     (ev.between = <<"*">> \/ bc \in Range(ev.between)) /\ Cardinality({p \in DOMAIN a.bus : a.bus[p] # "" /\ ev.buses[a.bus[p]].carrier = bc}) > 1

(* The value of asset a at a port in a column.  The optimised value of a   *)
(* capacity is that of the table *_opt.                                     *)
Value(ev, stat, a, port, col, atport) ==
  LET w == Weight(ev, a.c) IN
  CASE stat = "capex" -> Mul(a.v[Nom(a.c) \o "_opt"], a.v.cost)
    [] stat = "installed_capex" -> Mul(a.v[Nom(a.c)], a.v.cost)
    [] stat = "optimal_capacity" -> Capacity(ev, a, port, a.v[Nom(a.c) \o "_opt"], atport)
    [] stat = "installed_capacity" -> Capacity(ev, a, port, a.v[Nom(a.c)], atport)
    [] stat = "opex" -> AssetOpex(ev, a, col)
    [] stat \in {"energy_balance", "supply", "withdrawal"} ->
         OverTime(ev, LAMBDA k : PartOf(ev, a, port, k, IF stat = "energy_balance" THEN ev.direction ELSE stat), w, ev.aggt, col)
    [] stat = "transmission" -> OverTime(ev, LAMBDA k : IF ev.linear THEN Injection(a, port, k) ELSE a.s["p" \o port][k], w, ev.aggt, col)
    [] stat = "curtailment" -> OverTime(ev, LAMBDA k : IF InYear(ev, a, YearOf(ev, "none", k)) THEN Clip(ev, Sub(Mul(a.s.p_max_pu[k], a.v.p_nom_opt), IF a.c = "Link" THEN a.s.p0[k] ELSE a.s.p[k])) ELSE 0, w, ev.aggt, col)
    [] stat = "operation" -> OverTime(ev, LAMBDA k : IF ev.linear THEN Operation(a, k) ELSE AbsQ(Operation(a, k)), w, ev.aggt, col)
    [] stat = "revenue" -> OverTime(ev, LAMBDA k : Mul(LET v == Injection(a, port, k) IN IF ev.direction = "input" THEN MinQ(v, 0) ELSE IF ev.direction = "output" THEN MaxQ(v, 0) ELSE v,
                                                       ev.price[a.bus[port]][k]), w, ev.aggt, col)
(* which assets a statistic is about *)
About(ev, stat, a, port) ==
  CASE stat \in {"capex", "installed_capex", "optimal_capacity", "installed_capacity"} -> HasNom(a.c)
    [] stat = "opex" -> CostTypes(a.c) \cap Range(ev.costtypes) # {} /\ \E t \in CostTypes(a.c) \cap Range(ev.costtypes) : t \notin UnitCosts \/ a.v.committable
    [] stat = "transmission" -> Transmits(ev, a)
    [] stat = "curtailment" -> a.c \in {"Generator", "StorageUnit"} \/ (ev.linear /\ a.c = "Link")
    [] stat = "operation" -> ~ev.linear \/ a.c # "ShuntImpedance"
    [] OTHER -> Has(a, "p" \o port)

(* ------------------------------------------------------------ selection and grouping *)
PortsFor(ev, a, atport) == IF atport = "first" THEN {a.ports[1]} ELSE {p \in Range(a.ports) : a.bus[p] # "" /\ (ev.ports = <<"*">> \/ p \in Range(ev.ports))}
Selected(ev, a, port) ==
  /\ a.c \in Range(ev.comps)
  /\ ev.carriers = <<"*">> \/ a.carrier \in Range(ev.carriers)
  /\ ev.buscarriers = <<"*">> \/ (a.bus[port] # "" /\ ev.buses[a.bus[port]].carrier \in Range(ev.buscarriers))
Nice(ev, name) == IF ~ev.nicenames THEN name ELSE IF name = "" THEN "-" ELSE IF name \in DOMAIN ev.nice THEN ev.nice[name] ELSE name
KeyAt(ev, a, port, by) ==
  CASE by = "carrier" -> Nice(ev, a.carrier)
    [] by = "bus" -> a.bus[port]
    [] by = "bus_carrier" -> Nice(ev, ev.buses[a.bus[port]].carrier)
    [] by \in {"country", "location", "unit"} -> ev.buses[a.bus[port]][by]
    [] by = "name" -> a.id
    [] OTHER -> a.cols[by]
KeyOf(ev, a, port) ==
  (IF ev.across \/ ev.single THEN << >> ELSE << a.c >>)
  \o [i \in DOMAIN ev.by |-> KeyAt(ev, a, port, ev.by[i])]
Entries(ev, stat, atport) ==
  UNION { { <<i, p>> : p \in {q \in PortsFor(ev, ev.assets[i], atport) : About(ev, stat, ev.assets[i], q) /\ Selected(ev, ev.assets[i], q)} } : i \in DOMAIN ev.assets }
(* Assets which are not in service contribute nothing. *)
InColumn(ev, stat, a, col) ==
  IF stat \in {"capex", "installed_capex", "optimal_capacity", "installed_capacity"} THEN InYear(ev, a, YearOf(ev, "sum", col))
  ELSE ev.aggt = "none" \/ InYear(ev, a, YearOf(ev, ev.aggt, col))
Largest(E, f(_)) == f(CHOOSE x \in E : \A y \in E : Leq(f(y), f(x)))
Smallest(E, f(_)) == f(CHOOSE x \in E : \A y \in E : Leq(f(x), f(y)))
Combine(agg, E, f(_)) ==
  CASE agg = "sum" -> Sum(E, f)
    [] agg = "mean" -> IF E = {} THEN 0 ELSE Div(Sum(E, f), Cardinality(E))
    [] agg = "max" -> IF E = {} THEN 0 ELSE Largest(E, f)
    [] agg = "min" -> IF E = {} THEN 0 ELSE Smallest(E, f)

(* The table of a statistic: group -> column -> value *)
Table(ev, stat, atport, cols) ==
  LET E == {e \in Entries(ev, stat, atport) : \E col \in cols : InColumn(ev, stat, ev.assets[e[1]], col)}
      keys == [e \in E |-> KeyOf(ev, ev.assets[e[1]], e[2])]
  IN [g \in Range(keys) |-> [col \in cols |->
        Combine(ev.agg, {e \in E : keys[e] = g /\ InColumn(ev, stat, ev.assets[e[1]], col)},
                LAMBDA e : Value(ev, stat, ev.assets[e[1]], e[2], col, atport))]]
At(t, g, col) == IF g \in DOMAIN t THEN t[g][col] ELSE 0

StaticCols(ev) == ColumnsOf(ev, "sum")
Expected(ev) ==
  LET cols == ColumnsOf(ev, ev.aggt)
      st == ev.stat
  IN
  CASE st = "expanded_capex" ->
         LET o == Table(ev, "capex", ev.atport, cols) i == Table(ev, "installed_capex", ev.atport, cols)
         IN [g \in DOMAIN o \cup DOMAIN i |-> [c \in cols |-> Sub(At(o, g, c), At(i, g, c))]]
    [] st = "expanded_capacity" ->
         LET o == Table(ev, "optimal_capacity", ev.atport, cols) i == Table(ev, "installed_capacity", ev.atport, cols)
         IN [g \in DOMAIN o |-> [c \in cols |-> IF Less(AbsQ(At(i, g, c)), AbsQ(o[g][c])) THEN Sub(o[g][c], At(i, g, c)) ELSE 0]]
    [] st = "system_cost" ->
         LET x == Table(ev, "capex", ev.atport, cols) y == Table(ev, "opex", ev.atport, cols)
         IN [g \in DOMAIN x \cup DOMAIN y |-> [c \in cols |-> Add(At(x, g, c), At(y, g, c))]]
    [] st = "capacity_factor" ->
         LET x == Table(ev, "operation", ev.atport, cols) y == Table(ev, "optimal_capacity", ev.atport, StaticCols(ev))
             sc(c) == IF ev.aggt # "none" THEN c ELSE IF ev.multi THEN CHOOSE i \in DOMAIN ev.years : ev.years[i] = ev.per[c] ELSE 1
         IN [g \in DOMAIN x |-> [c \in cols |-> IF Eq(At(y, g, sc(c)), 0) THEN "NaN" ELSE Div(x[g][c], At(y, g, sc(c)))]]
    [] st = "market_value" ->
         LET x == Table(ev, "revenue", ev.atport, cols) y == Table(ev, "supply", ev.atport, cols)
         IN [g \in DOMAIN x |-> [c \in cols |-> IF Eq(At(y, g, c), 0) THEN "NaN" ELSE Div(x[g][c], At(y, g, c))]]
    [] OTHER -> Table(ev, st, ev.atport, cols)

(* ------------------------------------------------------------ the answer of the real code *)
(* ev.rows: sequence of [key, vals]; a value that is not there is "NaN"     *)
Differs(ev, want, got) ==
  IF IsNaN(want) THEN FALSE
  ELSE IF IsNaN(got) THEN ~EqTol(want, 0, ev.tol)
  ELSE ~EqTol(want, got, Mul(ev.tol, Add(1, AbsQ(want))))
StatisticFails(ev) ==
  IF ev.out # "ok" THEN {"the statistic is refused"}
  ELSE
  LET x == Expected(ev)
      got == {ev.rows[i].key : i \in DOMAIN ev.rows}
      Dropped(g) == \A c \in DOMAIN x[g] : IsNaN(x[g][c]) \/ EqTol(x[g][c], 0, ev.tol)
  IN
     FailIf(Cardinality(got) # Len(ev.rows), "a group appears twice")
     \cup {"unexpected group " \o ToString(g) : g \in {h \in got \ DOMAIN x : \E i \in DOMAIN ev.rows : ev.rows[i].key = h /\ \E j \in DOMAIN ev.rows[i].vals : ~IsNaN(ev.rows[i].vals[j]) /\ ~EqTol(ev.rows[i].vals[j], 0, ev.tol)}}
     \cup {"missing group " \o ToString(g) : g \in {h \in DOMAIN x \ got : ~Dropped(h)}}
     \cup FailIf(ev.keepzero /\ \E g \in DOMAIN x \ got : \E c \in DOMAIN x[g] : ~IsNaN(x[g][c]), "groups with value zero are dropped although drop_zero is False")
     \cup UNION { LET r == ev.rows[i] IN
                  IF r.key \notin DOMAIN x THEN {}
                  ELSE IF Len(r.vals) # Cardinality(DOMAIN x[r.key]) THEN {"wrong number of columns"}
                  ELSE {"value of " \o ToString(r.key) \o " in column " \o ToString(c) \o " is " \o ToString(r.vals[c]) \o ", expected " \o ToString(x[r.key][c])
                        : c \in {d \in DOMAIN r.vals : Differs(ev, x[r.key][d], r.vals[d])}} : i \in DOMAIN ev.rows }

(* ------------------------------------------------------------ identities of a solved network *)
(* ev.balance: bus -> net injection in each snapshot (energy_balance grouped *)
(* by bus, not aggregated over time); ev.cost: capital and operating cost of *)
(* each investment period with its weight, ev.objective and ev.constant     *)
SolvedFails(ev) ==
  {"energy balance at bus " \o ToString(b) \o " is not zero" : b \in {c \in DOMAIN ev.balance : \E k \in DOMAIN ev.balance[c] : ~EqTol(ev.balance[c][k], 0, ev.tol)}}
  \cup FailIf(~EqTol(Sum(DOMAIN ev.cost, LAMBDA i : Mul(ev.cost[i].w, Add(ev.cost[i].capex, ev.cost[i].opex))), Add(ev.objective, ev.constant), Mul(ev.tol, Add(1, ev.scale))),
              "capital and operating costs do not add up to the objective")
=============================================================================
