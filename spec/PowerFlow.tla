----------------------------- MODULE PowerFlow -----------------------------
(***************************************************************************)
(* Linear (C08) and non-linear (C09) power flow, and contingencies (C10).  *)
(* An event observes one power flow:                                       *)
(*   buses     [name, v_nom, carrier, vset: per asked snapshot]            *)
(*   branches  as in Electrical, with p0, p1 (q0, q1) per asked snapshot   *)
(*   ones      one-ports [cls, name, bus, sign, on, pset, qset, p, q]      *)
(*   shunts    [name, bus, on, sign, g, b, v_nom, p, q]                    *)
(*   links     [name, on, pset, p0, bus0, ports: [bus, eff, p]]            *)
(*   gens      generators as Topology wants them, in network order         *)
(*   v, ang, bp, bq   per bus name, a sequence over the asked snapshots    *)
(*   K         number of asked snapshots                                   *)
(*   kept      [what, was, is]: results of snapshots which were not asked  *)
(***************************************************************************)
EXTENDS Topology, Electrical

On1(seq) == {i \in DOMAIN seq : seq[i].on}
PF_PU(ev, i) == PerUnit(ev.branches[i], ev.ltypes, ev.ttypes)
BusIx(ev, b) == CHOOSE i \in DOMAIN ev.buses : ev.buses[i].name = b
BusRec(ev, b) == ev.buses[BusIx(ev, b)]
(* topology wants from/to *)
AsEdges(ev) == [i \in DOMAIN ev.branches |-> [from |-> ev.branches[i].bus0, to |-> ev.branches[i].bus1, on |-> ev.branches[i].on]]
PFParts(ev) == MergeAll({{ev.buses[i].name} : i \in DOMAIN ev.buses}, SelectSeq(AsEdges(ev), LAMBDA e : e.on))
PartOf(P, b) == CHOOSE S \in P : b \in S
SlackOf(ev, S) == ev.buses[SlackBus(ev, S)].name
DCPart(ev, S) == \A b \in S : BusRec(ev, b).carrier = "DC"

(* what is injected at bus b in step k by the components as reported       *)
LinkDraw(ev, b, k) ==
  SumSeq([i \in DOMAIN ev.links |-> IF ~ev.links[i].on THEN 0 ELSE
     Add(IF ev.links[i].bus0 = b THEN ev.links[i].p0[k] ELSE 0,
         SumSeq([j \in DOMAIN ev.links[i].ports |-> IF ev.links[i].ports[j].bus = b THEN ev.links[i].ports[j].p[k] ELSE 0]))])
Injected(ev, b, k) ==
  Sub(Add(Sum({i \in On1(ev.ones) : ev.ones[i].bus = b}, LAMBDA i : Mul(ev.ones[i].sign, ev.ones[i].p[k])),
          Sum({i \in On1(ev.shunts) : ev.shunts[i].bus = b}, LAMBDA i : Mul(ev.shunts[i].sign, ev.shunts[i].p[k]))),
      LinkDraw(ev, b, k))
InjectedQ(ev, b, k) ==
  Add(Sum({i \in On1(ev.ones) : ev.ones[i].bus = b}, LAMBDA i : Mul(ev.ones[i].sign, ev.ones[i].q[k])),
      Sum({i \in On1(ev.shunts) : ev.shunts[i].bus = b}, LAMBDA i : ev.shunts[i].q[k]))
Leaving(ev, b, k, A0(_), A1(_)) ==
  Sum({i \in On1(ev.branches) : b \in {ev.branches[i].bus0, ev.branches[i].bus1}},
      LAMBDA i : Add(IF ev.branches[i].bus0 = b THEN A0(ev.branches[i]) ELSE 0, IF ev.branches[i].bus1 = b THEN A1(ev.branches[i]) ELSE 0))

(* links follow their set points                                           *)
LinkSays(ev, k) ==
  UNION {LET l == ev.links[i] IN
         Say(l.on /\ ~Eq(l.p0[k], l.pset[k]), "a link does not follow its set point")
         \cup Say(l.on /\ \E j \in DOMAIN l.ports : l.ports[j].bus # "" /\ ~Eq(l.ports[j].p[k], NegQ(Mul(l.pset[k], l.ports[j].eff[k]))), "a link delivers another output than its input times the efficiency")
         : i \in DOMAIN ev.links}
KeptSays(ev) == Say(\E i \in DOMAIN ev.kept : ev.kept[i].was # ev.kept[i].is, "results of other snapshots have changed")

(* ------------------------------------------------------------ linear       *)
LinearBranch(ev, i, k, S) ==
  LET br == ev.branches[i]
      u == PF_PU(ev, i)
      drop == IF DCPart(ev, S) THEN Sub(ev.v[br.bus0][k], ev.v[br.bus1][k])
              ELSE Sub(Sub(ev.ang[br.bus0][k], ev.ang[br.bus1][k]), Div(Mul(u.shift, Pi), 180))
      z == IF DCPart(ev, S) THEN u.reff ELSE u.xeff
      \* the drop is the difference of two angles: its rounding error scales with them
      want == Div(drop, z)
  IN Say(~Eq(br.p0[k], want), "a flow does not follow from the angles of its buses")
     \cup Say(~Eq(br.p1[k], NegQ(br.p0[k])), "the ends of a branch carry different flows")
LinearPart(ev, S, k) ==
  LET slack == SlackOf(ev, S)
      gen == SlackGen(ev, S)
      ref == IF DCPart(ev, S) THEN 1 ELSE 0
  IN UNION {LinearBranch(ev, i, k, S) : i \in {i \in On1(ev.branches) : ev.branches[i].bus0 \in S}}
     \cup UNION { Say(~Eq(ev.bp[b][k], Leaving(ev, b, k, LAMBDA r : r.p0[k], LAMBDA r : r.p1[k])), "a bus is not balanced")
                  \cup Say((b # slack \/ gen # "") /\ ~Eq(ev.bp[b][k], Injected(ev, b, k)), "the injection at a bus is not the sum of its components")
                  \cup Say(IF DCPart(ev, S) THEN ~Eq(ev.ang[b][k], 0) ELSE ~Eq(ev.v[b][k], 1), "a bus has another voltage magnitude (AC) or angle (DC) than the linear model")
                  : b \in S }
     \cup Say(~Eq((IF DCPart(ev, S) THEN ev.v[slack][k] ELSE ev.ang[slack][k]), ref), "the slack bus is not the reference")
     \cup UNION {LET c == ev.ones[i] IN Say(c.on /\ c.bus \in S /\ ~(c.cls = "Generator" /\ c.name = gen) /\ ~Eq(c.p[k], c.pset[k]), "a component other than the slack generator leaves its set point") : i \in DOMAIN ev.ones}
     \cup UNION {LET c == ev.shunts[i] IN Say(c.on /\ c.bus \in S /\ ~Eq(c.p[k], Mul(c.g, Mul(c.v_nom, c.v_nom))), "a shunt impedance draws another power than its conductance at nominal voltage") : i \in DOMAIN ev.shunts}
LpfFails(ev) ==
  IF ev.out = "refused" THEN {"the linear power flow is refused"}
  ELSE LET P == PFParts(ev) IN
       UNION {LinkSays(ev, k) \cup UNION {LinearPart(ev, S, k) : S \in P} : k \in 1..ev.K} \cup KeptSays(ev)

(* --------------------------------------------------------- contingencies   *)
(* ev.cols: [outage: 0 or index of a branch, flow: per branch]              *)
(* The flows after an outage are the unique ones which keep the injections  *)
(* of the base case and have angles in the network without the branch.      *)
RECURSIVE Spread(_, _, _)
\* angles over a spanning forest: pot (function on reached buses), edges E (set of [f, t, d])
Spread(pot, E, todo) ==
  LET ext == {e \in E : (e.f \in DOMAIN pot) # (e.t \in DOMAIN pot)}
      rest == todo \ DOMAIN pot
  IN IF ext # {} THEN
       LET e == CHOOSE e \in ext : TRUE
           new == IF e.f \in DOMAIN pot THEN e.t ELSE e.f
           val == IF e.f \in DOMAIN pot THEN Sub(pot[e.f], e.d) ELSE Add(pot[e.t], e.d)
       IN Spread([b \in DOMAIN pot \cup {new} |-> IF b = new THEN val ELSE pot[b]], E, todo)
     ELSE IF rest # {} THEN LET r == CHOOSE r \in rest : TRUE IN Spread([b \in DOMAIN pot \cup {r} |-> IF b = r THEN 0 ELSE pot[b]], E, todo)
     ELSE pot
AngleDrop(ev, i, f, dc) == LET u == PF_PU(ev, i) IN
  IF dc THEN Mul(u.reff, f) ELSE Add(Mul(u.xeff, f), Div(Mul(u.shift, Pi), 180))
OutageSays(ev, P, col) ==
  LET l == ev.branches[col.outage]
      S == PartOf(P, l.bus0)
      dc == DCPart(ev, S)
      mine == {i \in On1(ev.branches) : ev.branches[i].bus0 \in S}
      left == mine \ {col.outage}
      E == {[f |-> ev.branches[i].bus0, t |-> ev.branches[i].bus1, d |-> AngleDrop(ev, i, col.flow[i], dc), i |-> i] : i \in left}
      pot == Spread([b \in {} |-> 0], E, S)
      net(b, F(_)) == Sum({i \in mine : b \in {ev.branches[i].bus0, ev.branches[i].bus1}},
                          LAMBDA i : Mul((IF ev.branches[i].bus0 = b THEN 1 ELSE 0) - (IF ev.branches[i].bus1 = b THEN 1 ELSE 0), F(i)))
      zeff(i) == LET u == PF_PU(ev, i) IN IF dc THEN u.reff ELSE u.xeff
      bridge == Cardinality(MergeAll({{b} : b \in S}, SelectSeq([i \in DOMAIN ev.branches |-> [from |-> ev.branches[i].bus0, to |-> ev.branches[i].bus1, on |-> i \in left]], LAMBDA e : e.on))) > 1
  IN Say(\E i \in On1(ev.branches) \ mine : ~Eq(col.flow[i], ev.base[i]), "an outage changes flows in another sub-network")
     \cup Say(~l.on /\ \E i \in On1(ev.branches) : ~Eq(col.flow[i], ev.base[i]), "the outage of an inactive branch changes flows")
     \cup (IF bridge \/ ~l.on THEN {}      \* no flow serves the injections of both sides: unspecified
           ELSE Say(~Eq(col.flow[col.outage], 0), "a branch carries flow in its own outage")
                \cup Say(\E b \in S : ~Eq(net(b, LAMBDA i : col.flow[i]), net(b, LAMBDA i : ev.base[i])), "the flows after an outage do not serve the injections")
                \cup Say(\E e \in E : ~Eq(Div(Sub(Sub(pot[e.f], pot[e.t]), e.d), zeff(e.i)), 0), "the flows after an outage do not follow from angles"))
(* Factors: column b of the PTDF is the flow of one unit from b to the slack  *)
(* bus; column l of the BODF is the flow which replaces one unit on l.       *)
Consistent(ev, dc, S, left, F(_)) ==
  LET zeff(i) == LET u == PF_PU(ev, i) IN IF dc THEN u.reff ELSE u.xeff
      E == {[f |-> ev.branches[i].bus0, t |-> ev.branches[i].bus1, d |-> Mul(zeff(i), F(i)), i |-> i] : i \in left}
      pot == Spread([b \in {} |-> 0], E, S)
  IN \A e \in E : Eq(Div(Sub(Sub(pot[e.f], pot[e.t]), e.d), zeff(e.i)), 0)
NetOut(ev, mine, b, F(_)) ==
  Sum({i \in mine : b \in {ev.branches[i].bus0, ev.branches[i].bus1}},
      LAMBDA i : Mul((IF ev.branches[i].bus0 = b THEN 1 ELSE 0) - (IF ev.branches[i].bus1 = b THEN 1 ELSE 0), F(i)))
FactorSays(ev, P, m) ==
  LET S == PartOf(P, m.buses[1])
      dc == DCPart(ev, S)
      mine == {i \in On1(ev.branches) : ev.branches[i].bus0 \in S}
      row(i) == CHOOSE k \in DOMAIN m.branches : m.branches[k] = i
      unit(b, k) == (IF b = m.buses[k] THEN 1 ELSE 0) - (IF b = m.slack THEN 1 ELSE 0)
      bridge(l) == Cardinality(MergeAll({{b} : b \in S}, SelectSeq([i \in DOMAIN ev.branches |-> [from |-> ev.branches[i].bus0, to |-> ev.branches[i].bus1, on |-> i \in mine \ {l}]], LAMBDA e : e.on))) > 1
  IN IF {m.buses[k] : k \in DOMAIN m.buses} # S \/ {m.branches[k] : k \in DOMAIN m.branches} # mine \/ Len(m.branches) # Cardinality(mine)
     THEN {"the factors are not those of the branches and buses of the sub-network"}
     ELSE UNION {LET F(i) == m.ptdf[row(i)][k] IN
                 Say((\E b \in S : ~Eq(NetOut(ev, mine, b, F), unit(b, k))) \/ ~Consistent(ev, dc, S, mine, F), "the PTDF is not the flow of a transfer to the slack bus") : k \in DOMAIN m.buses}
          \cup UNION {LET l == m.branches[k] F(i) == m.bodf[row(i)][k] IN
                 IF bridge(l) THEN {} ELSE
                 Say(~Eq(F(l), -1), "the BODF of a branch for itself is not -1")
                 \cup Say((\E b \in S : ~Eq(NetOut(ev, mine, b, F), 0)) \/ ~Consistent(ev, dc, S, mine \ {l}, F), "the BODF is not the flow which replaces the one of the outaged branch") : k \in DOMAIN m.branches}
ContingencyFails(ev) ==
  IF ev.out = "refused" THEN {"the contingency analysis is refused"}
  ELSE LET P == PFParts(ev) IN
       Say(Len(ev.cols) # Len(ev.asked) \/ \E c \in DOMAIN ev.cols : ev.cols[c].outage # ev.asked[c], "the outages reported are not those asked for")
       \cup Say(\E i \in On1(ev.branches) : ~Eq(ev.base[i], ev.branches[i].p0[1]), "the base flows are not those of the power flow")
       \cup UNION {LinearPart(ev, S, 1) : S \in P}
       \cup UNION {OutageSays(ev, P, ev.cols[c]) : c \in DOMAIN ev.cols}
       \cup UNION {FactorSays(ev, P, ev.factors[k]) : k \in DOMAIN ev.factors}

(* ------------------------------------------------------------ non-linear   *)
(* ev.conv[name of a bus][k]: whether convergence was reported for its sub-network *)
Tol == "1e-4"
Near(x, y) == EqTol(x, y, MaxQ(Tol, Mul("1e-6", MaxQ(AbsQ(x), AbsQ(y)))))
Volt(ev, b, k) == Polar(ev.v[b][k], ev.ang[b][k])
Gen1(ev, name) == CHOOSE i \in DOMAIN ev.ones : ev.ones[i].cls = "Generator" /\ ev.ones[i].name = name
(* the generator which holds the voltage of a PV bus: one of those with that control *)
AcBranch(ev, i, k) ==
  LET br == ev.branches[i]
      y == Admittances(PF_PU(ev, i))
      v0 == Volt(ev, br.bus0, k)
      v1 == Volt(ev, br.bus1, k)
      a == S0(y, v0, v1)
      c == S1(y, v0, v1)
      big == AbsQ(Add(Add(AbsQ(y.y00[1]), AbsQ(y.y00[2])), 1))
      ok(p, w) == EqTol(p, w, MaxQ("1e-6", Mul("1e-7", big)))
  IN Say(~ok(br.p0[k], a[1]) \/ ~ok(br.q0[k], a[2]) \/ ~ok(br.p1[k], c[1]) \/ ~ok(br.q1[k], c[2]), "the flow of a branch does not follow from the voltages")
Reactive(ev, S, b) == b = SlackOf(ev, S) \/ Control(ev, S, b) = "PV"
AcPart(ev, S, k) ==
  LET slack == SlackOf(ev, S)
      gen == SlackGen(ev, S)
      single == Cardinality(S) = 1
  IN UNION {AcBranch(ev, i, k) : i \in {i \in On1(ev.branches) : ev.branches[i].bus0 \in S}}
     \cup UNION { Say((b # slack \/ gen # "") /\ ~Near(Injected(ev, b, k), Leaving(ev, b, k, LAMBDA r : r.p0[k], LAMBDA r : r.p1[k])), "the active power of a bus is not balanced")
                  \cup Say((b # slack \/ gen # "") /\ ~Near(InjectedQ(ev, b, k), Leaving(ev, b, k, LAMBDA r : r.q0[k], LAMBDA r : r.q1[k])), "the reactive power of a bus is not balanced")
                  \cup Say(Reactive(ev, S, b) /\ ~Eq(ev.v[b][k], BusRec(ev, b).vset[k]), "a voltage controlled bus leaves its set point")
                  : b \in S }
     \cup Say(~Eq(ev.ang[slack][k], 0), "the slack bus is not the reference of the angles")
     \cup UNION {LET c == ev.ones[i]
                     isgen == c.cls = "Generator"
                     holds == isgen /\ (c.name = gen \/ (Control(ev, S, c.bus) = "PV" /\ \E g \in DOMAIN ev.gens : ev.gens[g].name = c.name /\ ev.gens[g].control \in {"PV", "Slack"}))
                 IN Say(c.on /\ c.bus \in S /\ ~holds /\ ~Near(c.q[k], c.qset[k]), "a component leaves its reactive set point")
                    \cup Say(c.on /\ c.bus \in S /\ ~(isgen /\ (ev.distribute \/ c.name = gen)) /\ ~Near(c.p[k], c.pset[k]), "a component leaves its active set point")
                 : i \in DOMAIN ev.ones}
     \cup UNION {LET c == ev.shunts[i]
                     w == Mul(Mul(ev.v[c.bus][k], ev.v[c.bus][k]), Mul(c.v_nom, c.v_nom))
                 IN Say(c.on /\ c.bus \in S /\ (~Near(c.p[k], Mul(c.g, w)) \/ ~Near(c.q[k], Mul(c.b, w))), "a shunt impedance draws another power than its admittance") : i \in DOMAIN ev.shunts}
     \cup (IF ~ev.distribute THEN {} ELSE
           LET gs == {i \in On1(ev.ones) : ev.ones[i].cls = "Generator" /\ ev.ones[i].bus \in S}
               at(i) == {j \in gs : ev.ones[j].bus = ev.ones[i].bus}
               nom(i) == Sum(at(i), LAMBDA j : ev.ones[j].p_nom)
               given(x) == IF x \in DOMAIN ev.given THEN ev.given[x] ELSE 0
               w(i) == CASE ev.mode = "p_set" -> ev.ones[i].pset[k]
                         [] ev.mode = "p_nom" -> ev.ones[i].p_nom
                         [] ev.mode = "p_nom_opt" -> ev.ones[i].p_nom_opt
                         [] ev.mode = "generators" -> given(ev.ones[i].name)
                         [] OTHER -> IF Eq(nom(i), 0) THEN Div(given(ev.ones[i].bus), Cardinality(at(i)))
                                     ELSE Div(Mul(given(ev.ones[i].bus), ev.ones[i].p_nom), nom(i))
               dev(i) == Sub(ev.ones[i].p[k], ev.ones[i].pset[k])
               tot == Sum(gs, LAMBDA i : w(i))
               all == Sum(gs, LAMBDA i : dev(i))
           IN IF Eq(tot, 0) THEN {} ELSE UNION {Say(~Near(dev(i), Mul(all, Div(w(i), tot))), "the slack power is not shared by the weights") : i \in gs})
PfFails(ev) ==
  IF ev.out = "refused" THEN {"the power flow is refused"}
  ELSE LET P == PFParts(ev) IN
       UNION {LinkSays(ev, k) \cup UNION {IF ev.conv[CHOOSE b \in S : TRUE][k] THEN AcPart(ev, S, k) ELSE {} : S \in P} : k \in 1..ev.K}
       \cup KeptSays(ev)
       \cup Say(ev.unreported # << >>, "no convergence is reported for a sub-network or snapshot")
=============================================================================
