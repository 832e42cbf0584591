------------------------------ MODULE Solution ------------------------------
(***************************************************************************)
(* What a solved network reports (C21).                                    *)
(*   ev.cs     the case                                                    *)
(*   ev.res    reported series: class -> attribute -> id -> sequence over  *)
(*             the optimised steps ("nan" where there is no value)         *)
(*   ev.opt    class -> id -> reported optimal capacity                    *)
(*   ev.dec    class -> id -> decided capacity of extendable components    *)
(*   ev.lost   class -> id -> decided losses over the steps                *)
(*   ev.other  sequence of [what, before, after]: values which the solve   *)
(*             is not about (other snapshots, inputs)                      *)
(*   ev.duals  whether the problem has shadow prices                       *)
(*   ev.obj, ev.scale   the reported cost (without the constant)           *)
(*   ev.probes [bus, k, d, obj]: cost with d more load at a bus and step   *)
(*   ev.limits [id, known, mu, d, obj]: cost with another constant of a    *)
(*             global constraint                                           *)
(*   ev.angles the angles are defined by one topology                      *)
(***************************************************************************)
EXTENDS Grid, TLC
OneP == {"Generator", "Load", "StorageUnit", "Store"}
Listed(cs, cls) == CASE cls = "Generator" -> Range(cs.gens) [] cls = "Load" -> Range(cs.loads) [] cls = "StorageUnit" -> Range(cs.sus)
                     [] cls = "Store" -> Range(cs.stores) [] cls = "Link" -> Range(cs.links) [] cls = "Line" -> Range(cs.lines) [] cls = "Transformer" -> Range(cs.trafos)
R(ev, cls, attr, c, k) == ev.res[cls][attr][c.id][k]
Port(i) == "p" \o ToString(i)

PortFails(ev, l, k) ==
  LET cs == ev.cs  t == T_(cs, k)  p == R(ev, "Link", "p0", l, k) IN
  UNION {FailIf(~Eq(R(ev, "Link", Port(i), l, k), IF l.ports[i].bus = "" THEN 0 ELSE NegQ(Mul(A(l, l.ports[i].eff, t), p))), "power at a port of a link")
         : i \in DOMAIN l.ports}
EndsFails(ev, cls, b, k) ==
  LET p == R(ev, cls, "p0", b, k)  q == R(ev, cls, "p1", b, k) IN
  FailIf(~Eq(Add(p, q), IF ev.cs.losses > 0 THEN ev.lost[cls][b.id][k] ELSE 0), "flows at the ends of a branch")
OnePortFails(ev, k) ==
  LET cs == ev.cs IN
  UNION {FailIf(~Eq(R(ev, "Load", "p", l, k), IF On(cs, l, k) THEN A(l, "p_set", T_(cs, k)) ELSE 0), "reported load") : l \in Range(cs.loads)}
  \cup UNION {FailIf(~Eq(R(ev, "StorageUnit", "p", s, k), Sub(R(ev, "StorageUnit", "p_dispatch", s, k), R(ev, "StorageUnit", "p_store", s, k))), "net power of a storage unit") : s \in Range(cs.sus)}
(* net injection of a bus: one-ports and links                              *)
Injected(ev, b, k) ==
  LET cs == ev.cs IN
  Add(SumSeq([j \in 1..4 |-> LET cls == <<"Generator", "Load", "StorageUnit", "Store">>[j] IN
                  Sum({c \in Listed(cs, cls) : c.bus = b}, LAMBDA c : Mul(c.sign, R(ev, cls, "p", c, k)))]),
      Sum(Range(cs.links), LAMBDA l : NegQ(Add(IF l.bus0 = b THEN R(ev, "Link", "p0", l, k) ELSE 0,
            SumSeq([i \in DOMAIN l.ports |-> IF l.ports[i].bus = b THEN R(ev, "Link", Port(i), l, k) ELSE 0])))))
Drained(ev, b, k) ==
  Sum(Branches(ev.cs), LAMBDA cb : Add(IF cb[2].bus0 = b THEN R(ev, cb[1], "p0", cb[2], k) ELSE 0, IF cb[2].bus1 = b THEN R(ev, cb[1], "p1", cb[2], k) ELSE 0))
BusFails(ev, b, k) ==
  LET p == R(ev, "Bus", "p", b, k) IN
  FailIf(~Eq(p, Injected(ev, b.id, k)), "injection of a bus") \cup FailIf(~Eq(p, Drained(ev, b.id, k)), "injection of a bus and the flows which leave it")
AngleFails(ev, cb, k) ==
  LET cs == ev.cs  b == cb[2]  d == Sub(R(ev, "Bus", "v_ang", BusOf(cs, b.bus0), k), R(ev, "Bus", "v_ang", BusOf(cs, b.bus1), k)) IN
  FailIf(ev.angles /\ On(cs, b, k) /\ BusOf(cs, b.bus0).carrier = "AC" /\ ~EqTol(d, Mul(R(ev, cb[1], "p0", b, k), XEff(cs, cb)), MaxQ("1e-4", Mul("1e-5", AbsQ(d)))), "voltage angles and flows")

Noms == <<<<"Generator", "p_nom">>, <<"StorageUnit", "p_nom">>, <<"Store", "e_nom">>, <<"Link", "p_nom">>, <<"Line", "s_nom">>, <<"Transformer", "s_nom">>>>
OptFails(ev) ==
  UNION { UNION { LET o == ev.opt[cn[1]][c.id] IN
                  IF c[cn[2] \o "_extendable"] THEN FailIf(c.active /\ ~Eq(o, ev.dec[cn[1]][c.id]), "optimal capacity is not the decided one")
                  ELSE FailIf(~Eq(o, c[cn[2]]), "optimal capacity of a given capacity")
                  : c \in Listed(ev.cs, cn[1])} : cn \in Range(Noms) }

(* ---- prices.  Cost is convex in the load and in the limits: a price is a *)
(* slope which nowhere exceeds the change of cost.                          *)
Slack(ev) == MaxQ("1e-4", Mul("1e-6", ev.scale))
WeightOf(cs, k) == Mul(cs.wo[T_(cs, k)], PeriodObj(cs, Year(cs, k)))
NoLess(o, obj, slope, d, tol) == Leq(Add(obj, Mul(slope, d)), Add(o, tol))
PriceFails(ev) ==
  UNION {FailIf(p.known /\ ~NoLess(p.obj, ev.obj, Mul(WeightOf(ev.cs, p.k), R(ev, "Bus", "marginal_price", [id |-> p.bus], p.k)), p.d, Slack(ev)), "marginal price is not the change of cost per extra load")
         : p \in Range(ev.probes)}
  \cup UNION {FailIf(l.exists /\ (IsNaN(l.mu) \/ (l.known /\ ~NoLess(l.obj, ev.obj, l.mu, l.d, Slack(ev)))), "shadow price of a global constraint") : l \in Range(ev.limits)}
(* a fixed, unconstrained generator earns its shadow price                  *)
Plain(cs, g) == /\ ~g.p_nom_extendable /\ ~g.committable /\ g.active /\ DOMAIN g.ser \cap {"p_set", "ramp_limit_up", "ramp_limit_down", "marginal_cost_quadratic"} = {}
                /\ IsNaN(g.ramp_limit_up) /\ IsNaN(g.ramp_limit_down) /\ IsInf(g.e_sum_min) /\ IsInf(g.e_sum_max) /\ cs.glcs = << >> /\ Eq(g.marginal_cost_quadratic, 0)
GenDualFails(ev, g, k) ==
  LET cs == ev.cs  t == T_(cs, k)  w == WeightOf(cs, k)
      up == R(ev, "Generator", "mu_upper", g, k)  lo == R(ev, "Generator", "mu_lower", g, k)  p == R(ev, "Generator", "p", g, k) IN
  IF ~ev.every \/ ~Plain(cs, g) \/ ~On(cs, g, k) THEN {}
  ELSE FailIf(IsNaN(up) \/ IsNaN(lo), "shadow price of a generator's limits is not reported")
       \cup (IF IsNaN(up) \/ IsNaN(lo) THEN {} ELSE
             FailIf(~EqTol(Sub(Mul(w, A(g, "marginal_cost", t)), Prod3(w, g.sign, R(ev, "Bus", "marginal_price", [id |-> g.bus], k))), Add(up, lo), "1e-4"), "shadow prices of a generator's limits")
             \cup FailIf((Less(up, "-1e-4") /\ ~EqTol(p, Mul(A(g, "p_max_pu", t), g.p_nom), "1e-3")) \/ (Less("1e-4", lo) /\ ~EqTol(p, Mul(A(g, "p_min_pu", t), g.p_nom), "1e-3")), "a limit which does not bind has a shadow price"))

SameV(a, b) == (IsNaN(a) /\ IsNaN(b)) \/ Eq(a, b)
OtherFails(ev) == UNION {FailIf(Len(o.before) # Len(o.after) \/ \E i \in 1..Len(o.before) : ~SameV(o.before[i], o.after[i]), "changed outside the optimised snapshots: " \o o.what) : o \in Range(ev.other)}
Unreported(ev) == UNION {UNION {UNION {FailIf(cls # "nothing" /\ ~(attr \in {"mu_upper", "mu_lower", "marginal_price", "v_ang", "spill"}) /\ \E k \in Steps(ev.cs) : IsNaN(ev.res[cls][attr][i][k]), "no value for " \o cls \o " " \o attr)
                                       : i \in DOMAIN ev.res[cls][attr]} : attr \in DOMAIN ev.res[cls]} : cls \in DOMAIN ev.res}

SolutionSays(ev) ==
  LET cs == ev.cs  un == Unreported(ev) IN
  un \cup OtherFails(ev) \cup OptFails(ev)
  \cup (IF un # {} THEN {} ELSE
     UNION { OnePortFails(ev, k) \cup UNION {PortFails(ev, l, k) : l \in Range(cs.links)} \cup UNION {EndsFails(ev, cb[1], cb[2], k) : cb \in Branches(cs)}
             \cup UNION {BusFails(ev, b, k) : b \in Range(cs.buses)} \cup UNION {AngleFails(ev, cb, k) : cb \in Branches(cs)} : k \in Steps(cs) })
  \cup (IF ~ev.duals THEN {} ELSE
     FailIf(\E b \in Range(cs.buses), k \in Steps(cs) : IsNaN(R(ev, "Bus", "marginal_price", b, k)), "no marginal price")
     \cup PriceFails(ev) \cup UNION {GenDualFails(ev, g, k) : g \in Range(cs.gens), k \in Steps(cs)})
=============================================================================
