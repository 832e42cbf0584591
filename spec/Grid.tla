-------------------------------- MODULE Grid --------------------------------
(***************************************************************************)
(* Buses and passive branches: nodal balance (C11), Kirchhoff's voltage    *)
(* law (C15), branch limits and transmission losses (C16).                 *)
(*                                                                         *)
(* A link has a sequence `ports` of [bus, eff] records for its output      *)
(* ports; `eff` names the efficiency attribute of that port.               *)
(* Branch flows are x.flow[class][id], losses x.loss[class][id].           *)
(***************************************************************************)
EXTENDS Assets

BranchClasses == {"Line", "Transformer"}
Branches(cs) == {<<"Line", b>> : b \in Range(cs.lines)} \cup {<<"Transformer", b>> : b \in Range(cs.trafos)}
BusOf(cs, id) == CHOOSE b \in Range(cs.buses) : b.id = id

Flow(x, cb, k) == x.flow[cb[1]][cb[2].id][k]
Loss(cs, x, cb, k) == IF cs.losses > 0 THEN x.loss[cb[1]][cb[2].id][k] ELSE 0

(* ---- effective per-unit impedances (C29) *)
RPu(cs, cb) == IF cb[1] = "Line" THEN LET v == BusOf(cs, cb[2].bus0).v_nom IN Div(cb[2].r, Mul(v, v))
               ELSE Div(cb[2].r, cb[2].s_nom)
XPu(cs, cb) == IF cb[1] = "Line" THEN LET v == BusOf(cs, cb[2].bus0).v_nom IN Div(cb[2].x, Mul(v, v))
               ELSE Div(cb[2].x, cb[2].s_nom)
Tap(cb) == IF cb[1] = "Line" THEN 1 ELSE cb[2].tap_ratio
REff(cs, cb) == Mul(RPu(cs, cb), Tap(cb))
XEff(cs, cb) == Mul(XPu(cs, cb), Tap(cb))
Weight(cs, cb) == IF BusOf(cs, cb[2].bus0).carrier = "AC" THEN XEff(cs, cb) ELSE REff(cs, cb)

(* ---- nodal balance: everything injected at bus b in step k sums to zero *)
OnePort(cs, seq, b, k, P(_)) == Sum({c \in Range(seq) : c.bus = b /\ On(cs, c, k)}, LAMBDA c : Mul(c.sign, P(c)))
LinkOut(cs, l, b, t) ==
  SumSeq([i \in DOMAIN l.ports |-> IF l.ports[i].bus = b THEN A(l, l.ports[i].eff, t) ELSE 0])
Balance(cs, x, b, k) ==
  LET t == T_(cs, k) IN
  SumSeq(<< OnePort(cs, cs.gens, b, k, LAMBDA g : x.gp[g.id][k]),
            OnePort(cs, cs.stores, b, k, LAMBDA s : x.sp[s.id][k]),
            OnePort(cs, cs.sus, b, k, LAMBDA s : Sub(x.ud[s.id][k], x.us[s.id][k])),
            OnePort(cs, cs.loads, b, k, LAMBDA l : A(l, "p_set", t)),
            Sum({l \in Range(cs.links) : On(cs, l, k)},
                LAMBDA l : Sub(Mul(LinkOut(cs, l, b, t), x.lp[l.id][k]), IF l.bus0 = b THEN x.lp[l.id][k] ELSE 0)),
            Sum({cb \in Branches(cs) : On(cs, cb[2], k)},
                LAMBDA cb : Sub(Sub(IF cb[2].bus1 = b THEN Flow(x, cb, k) ELSE 0,
                                    IF cb[2].bus0 = b THEN Flow(x, cb, k) ELSE 0),
                                Div(Mul((IF cb[2].bus0 = b THEN 1 ELSE 0) + (IF cb[2].bus1 = b THEN 1 ELSE 0),
                                               Loss(cs, x, cb, k)), 2))) >>)
BalanceFails(cs, x) ==
  UNION {FailIf(~Eq(Balance(cs, x, b.id, k), 0), "bus is not balanced") : b \in Range(cs.buses), k \in Steps(cs)}

(* ---- Kirchhoff's voltage law.  Angles are propagated over a spanning    *)
(* forest of the active branches; they must explain every active branch.   *)
\* D: set of active branches as <<class, id>>; E: their end buses and angle drops;
\* pot: function from reached buses to angles
RECURSIVE Angles(_, _, _)
Angles(pot, D, E) ==
  LET ext == {e \in D : (E[e].f \in DOMAIN pot) # (E[e].t \in DOMAIN pot)}
      rest == ({E[e].f : e \in D} \cup {E[e].t : e \in D}) \ DOMAIN pot
  IN IF ext # {}
     THEN LET e == E[CHOOSE e \in ext : TRUE]
              new == IF e.f \in DOMAIN pot THEN e.t ELSE e.f
              val == IF e.f \in DOMAIN pot THEN Sub(pot[e.f], e.d) ELSE Add(pot[e.t], e.d)
          IN Angles([b \in DOMAIN pot \cup {new} |-> IF b = new THEN val ELSE pot[b]], D, E)
     ELSE IF rest # {}
     THEN LET r == CHOOSE r \in rest : TRUE
          IN Angles([b \in DOMAIN pot \cup {r} |-> IF b = r THEN 0 ELSE pot[b]], D, E)
     ELSE pot
BranchIds(cs) == {<<"Line", i>> : i \in DOMAIN cs.lines} \cup {<<"Transformer", i>> : i \in DOMAIN cs.trafos}
BranchOf(cs, e) == <<e[1], IF e[1] = "Line" THEN cs.lines[e[2]] ELSE cs.trafos[e[2]]>>
KVLFails(cs, x) ==
  UNION { LET D == {e \in BranchIds(cs) : On(cs, BranchOf(cs, e)[2], k)}
              E == [e \in D |-> LET cb == BranchOf(cs, e)
                                    w == Weight(cs, cb)
                                IN [f |-> cb[2].bus0, t |-> cb[2].bus1, w |-> w, d |-> Mul(w, Flow(x, cb, k))]]
              pot == Angles([b \in {} |-> 0], D, E)
          IN UNION {FailIf(~Eq(Div(Sub(Sub(pot[E[e].f], pot[E[e].t]), E[e].d), E[e].w), 0), "no bus angles explain the flows (KVL)") : e \in D}
        : k \in Steps(cs) }

(* ---- branch limits and losses *)
BranchFails(cs, x) ==
  UNION { LET c == cb[2]
              t == T_(cs, k)
              f == Flow(x, cb, k)
              l == Loss(cs, x, cb, k)
              cap == Mul(A(c, "s_max_pu", t), Cap(x, cb[1], c, "s_nom"))
          IN IF ~On(cs, c, k) THEN FailIf(~Eq(f, 0) \/ ~Eq(l, 0), "branch carries flow while out of service")
             ELSE FailIf(Less(cap, Add(f, l)) \/ Less(cap, Sub(l, f)), "branch flow outside its limits")
        : cb \in Branches(cs), k \in Steps(cs) }

LossFails(cs, x) ==
  IF cs.losses = 0 THEN {} ELSE
  UNION { LET c == cb[2]
              t == T_(cs, k)
              f == Flow(x, cb, k)
              l == Loss(cs, x, cb, k)
              r == REff(cs, cb)
              full == Mul(A(c, "s_max_pu", t), IF c.s_nom_extendable THEN c.s_nom_max ELSE c.s_nom)
              tangent(i, sgn) == LET q == Mul(Div(i, cs.losses), full)        \* tangent of r*q^2 at q, at flow sgn*f
                                 IN Add(Mul(r, Mul(q, q)), Mul(Mul(2, Mul(r, q)), Sub(Mul(sgn, f), q)))
          IN IF ~On(cs, c, k) THEN {}
             ELSE FailIf(Less(l, 0), "negative transmission loss")
                  \cup FailIf(Less(Mul(r, Mul(full, full)), l), "loss above the loss at full capacity")
                  \cup UNION {FailIf(Less(l, tangent(i, s)), "loss below a tangent of the loss curve") : i \in 1..cs.losses, s \in {1, -1}}
        : cb \in Branches(cs), k \in Steps(cs) }

GridFails(cs, x) == BalanceFails(cs, x) \cup KVLFails(cs, x) \cup BranchFails(cs, x) \cup LossFails(cs, x)
=============================================================================
