------------------------------- MODULE Limits -------------------------------
(***************************************************************************)
(* System-wide constraints (C17).  cs.glcs is a sequence of records        *)
(*   [id, type, attr, sense, constant, period, bus, carriers]              *)
(* period = 0: the whole horizon; bus = "": everywhere.                    *)
(* cs.carriers: records [id, max_growth, max_relative_growth, em] where em *)
(* maps emission attributes to values.                                     *)
(***************************************************************************)
EXTENDS Invest

CarrierOf(cs, id) == CHOOSE c \in Range(cs.carriers) : c.id = id
InScope(cs, g, k) == g.period = 0 \/ Year(cs, k) = g.period
ScopeSteps(cs, g) == {k \in Steps(cs) : InScope(cs, g, k)}
Hours(cs, k) == Mul(cs.wg[T_(cs, k)], PeriodYears(cs, Year(cs, k)))
Last(S) == CHOOSE m \in S : \A j \in S : m >= j

(* energy taken out of a non-cyclic storage by the end of the scope *)
Depletion(cs, g, a, lev, initial) ==
  LET S == {k \in ScopeSteps(cs, g) : On(cs, a, k)}
  IN IF S = {} THEN 0 ELSE Sub(initial, lev[Last(S)])

Emission(cs, g, a) == IF \E c \in Range(cs.carriers) : c.id = a.carrier THEN CarrierOf(cs, a.carrier).em[g.attr] ELSE 0
PrimaryEnergy(cs, x, g) ==
  LET em(a) == Emission(cs, g, a)
      emits(a) == ~Eq(em(a), 0)
  IN SumSeq(<<
       Sum({a \in Range(cs.gens) : emits(a)}, LAMBDA a :
           Sum({k \in ScopeSteps(cs, g) : On(cs, a, k)}, LAMBDA k :
               Mul(Mul(x.gp[a.id][k], Hours(cs, k)), Div(em(a), A(a, "efficiency", T_(cs, k)))))),
       Sum({a \in Range(cs.sus) : emits(a) /\ ~a.cyclic_state_of_charge}, LAMBDA a :
           Mul(em(a), Depletion(cs, g, a, x.soc[a.id], a.state_of_charge_initial))),
       Sum({a \in Range(cs.stores) : emits(a) /\ ~a.e_cyclic}, LAMBDA a :
           Mul(em(a), Depletion(cs, g, a, x.se[a.id], a.e_initial))) >>)

OperationalEnergy(cs, x, g) ==
  SumSeq(<<
    Sum({a \in Range(cs.gens) : a.carrier = g.attr}, LAMBDA a :
        Sum({k \in ScopeSteps(cs, g) : On(cs, a, k)}, LAMBDA k : Mul(x.gp[a.id][k], Hours(cs, k)))),
    Sum({a \in Range(cs.sus) : a.carrier = g.attr /\ ~a.cyclic_state_of_charge}, LAMBDA a :
        Depletion(cs, g, a, x.soc[a.id], a.state_of_charge_initial)),
    Sum({a \in Range(cs.stores) : a.carrier = g.attr /\ ~a.e_cyclic}, LAMBDA a :
        Depletion(cs, g, a, x.se[a.id], a.e_initial)) >>)

(* in service in the constraint's period, or at some time when it has none *)
Counts(cs, g, a) == IF ~cs.multi THEN TRUE
                    ELSE IF g.period # 0 THEN InService(a, g.period)
                    ELSE \E y \in YearsOf(cs) : InService(a, y)
CapacityIn(cs, x, S, Coef(_, _)) ==
  SumSeq([i \in DOMAIN Classes |->
            LET cl == Classes[i]
            IN IF cl.c \in S THEN Sum(Extendable(cs, cl), LAMBDA a : IF Eq(Coef(cl, a), 0) THEN 0 ELSE Mul(Coef(cl, a), CapOf(x, cl, a))) ELSE 0])
(* a limit that no extendable asset is subject to is not imposed *)
AnyIn(cs, S, In(_, _)) ==
  \E i \in DOMAIN Classes : Classes[i].c \in S /\ \E a \in Extendable(cs, Classes[i]) : In(Classes[i], a)
HomeBus(cl, a) == IF cl.c \in {"Line", "Link", "Transformer"} THEN a.bus0 ELSE a.bus
HasCarrier(cl, a, c) == "carrier" \in DOMAIN a /\ a.carrier = c

TechClasses == {"Generator", "Link", "StorageUnit", "Store", "Line"}
TechCounts(g, cl, a) == /\ HasCarrier(cl, a, g.attr)
                        /\ (g.bus = "" \/ HomeBus(cl, a) = g.bus)
                        /\ (g.period = 0 \/ InService(a, g.period))
TechCapacity(cs, x, g) == CapacityIn(cs, x, TechClasses, LAMBDA cl, a : IF TechCounts(g, cl, a) THEN 1 ELSE 0)
GridCounts(cs, g, a) == a.carrier \in Range(g.carriers) /\ Counts(cs, g, a)
Volume(cs, x, g) ==
  CapacityIn(cs, x, {"Line", "Link"}, LAMBDA cl, a : IF GridCounts(cs, g, a) THEN a.length ELSE 0)
YearsInService(cs, a) == Sum({y \in YearsOf(cs) : InService(a, y)}, LAMBDA y : PeriodObj(cs, y))
ExpansionCost(cs, x, g) ==
  CapacityIn(cs, x, {"Line", "Link"}, LAMBDA cl, a :
    IF a.carrier \in Range(g.carriers) /\ Counts(cs, g, a)
    THEN Mul(a.capital_cost, IF cs.multi /\ g.period = 0 THEN YearsInService(cs, a) ELSE 1) ELSE 0)

Quantity(cs, x, g) ==
  CASE g.type = "primary_energy" -> PrimaryEnergy(cs, x, g)
    [] g.type = "operational_limit" -> OperationalEnergy(cs, x, g)
    [] g.type = "tech_capacity_expansion_limit" -> TechCapacity(cs, x, g)
    [] g.type = "transmission_volume_expansion_limit" -> Volume(cs, x, g)
    [] g.type = "transmission_expansion_cost_limit" -> ExpansionCost(cs, x, g)
Operates(cs, g, In(_)) ==
  \E k \in ScopeSteps(cs, g) :
     \/ \E a \in Range(cs.gens) : In(a) /\ On(cs, a, k)
     \/ \E a \in Range(cs.sus) : In(a) /\ ~a.cyclic_state_of_charge /\ On(cs, a, k)
     \/ \E a \in Range(cs.stores) : In(a) /\ ~a.e_cyclic /\ On(cs, a, k)
Applies(cs, g) ==
  /\ g.period = 0 \/ g.period \in YearsOf(cs)
  /\ CASE g.type = "tech_capacity_expansion_limit" -> AnyIn(cs, TechClasses, LAMBDA cl, a : TechCounts(g, cl, a))
       [] g.type = "transmission_volume_expansion_limit" ->
            AnyIn(cs, {"Line", "Link"}, LAMBDA cl, a : cl.c \in {"Line", "Link"} /\ GridCounts(cs, g, a) /\ ~Eq(a.length, 0))
       [] g.type = "transmission_expansion_cost_limit" ->
            AnyIn(cs, {"Line", "Link"}, LAMBDA cl, a : GridCounts(cs, g, a) /\ ~Eq(a.capital_cost, 0))
       [] g.type = "primary_energy" -> Operates(cs, g, LAMBDA a : ~Eq(Emission(cs, g, a), 0))
       [] g.type = "operational_limit" -> Operates(cs, g, LAMBDA a : a.carrier = g.attr)
Holds(v, sense, c) == CASE sense = "<=" -> Leq(v, c) [] sense = ">=" -> Leq(c, v) [] sense = "==" -> Eq(v, c)
GlcFails(cs, x) == UNION {FailIf(Applies(cs, g) /\ ~Holds(Quantity(cs, x, g), g.sense, g.constant),
                                 g.type \o " constraint violated") : g \in Range(cs.glcs)}

(* ---- growth of a carrier: new capacity per investment period *)
SortedYears(cs) == LET Y == YearsOf(cs) IN [i \in 1..Cardinality(Y) |-> CHOOSE y \in Y : Cardinality({z \in Y : z < y}) = i - 1]
NewCapacity(cs, x, car, i) ==
  LET ys == SortedYears(cs)
  IN CapacityIn(cs, x, {"Generator", "Link", "StorageUnit", "Store", "Line"}, LAMBDA cl, a :
       IF HasCarrier(cl, a, car) /\ InService(a, ys[i]) /\ \A j \in 1..(i - 1) : ~InService(a, ys[j]) THEN 1 ELSE 0)
GrowthFails(cs, x) ==
  IF ~cs.multi THEN {} ELSE
  UNION { IF IsInf(c.max_growth) THEN {}
          ELSE UNION {FailIf(Less(Add(c.max_growth, IF i = 1 THEN 0 ELSE Mul(MaxQ(c.max_relative_growth, 0), NewCapacity(cs, x, c.id, i - 1))),
                                  NewCapacity(cs, x, c.id, i)),
                             "new capacity of a carrier above its growth limit") : i \in DOMAIN SortedYears(cs)}
        : c \in Range(cs.carriers) }

(* ---- capacity limits per bus and carrier: bus.nomlims is a sequence of  *)
(* [kind |-> "min"|"max", carrier, period, value]                          *)
BusCapFails(cs, x) ==
  UNION { UNION { LET In(a) == a.carrier = l.carrier /\ a.bus = b.id /\ (l.period = 0 \/ InService(a, l.period))
                      S == {"Generator", "StorageUnit", "Store"}
                      v == CapacityIn(cs, x, S, LAMBDA cl, a : IF cl.c \in S THEN (IF In(a) THEN 1 ELSE 0) ELSE 0)
                  IN IF ~AnyIn(cs, S, LAMBDA cl, a : In(a)) THEN {}
                     ELSE IF l.kind = "min" THEN FailIf(Less(v, l.value), "capacity at a bus below nom_min")
                     ELSE FailIf(Less(l.value, v), "capacity at a bus above nom_max")
                : l \in Range(b.nomlims) } : b \in Range(cs.buses) }

LimitsFails(cs, x) == GlcFails(cs, x) \cup GrowthFails(cs, x) \cup BusCapFails(cs, x)
=============================================================================
