----------------------------- MODULE Electrical -----------------------------
(***************************************************************************)
(* Electrical values of branches (C29): standard types, per-unit system,   *)
(* the T and PI models of transformers, and the admittances of a branch as *)
(* seen from its two ends (C09).                                           *)
(*                                                                         *)
(* A branch is a record [cls, name, bus0, bus1, on, r, x, g, b, s_nom,     *)
(* type, length, num_parallel, tap_ratio, tap_side, tap_position,          *)
(* phase_shift, model, v_nom]; v_nom is the nominal voltage of its bus0.   *)
(* ltypes and ttypes are functions from names of standard types.           *)
(***************************************************************************)
EXTENDS Num, TLC
Pi == "3.14159265358979323846"

(* ---- physical values: from the standard type if the branch has one       *)
LineRaw(l, ltypes) ==
  IF l.type = "" THEN [r |-> l.r, x |-> l.x, g |-> l.g, b |-> l.b]
  ELSE LET t == ltypes[l.type] IN
       [r |-> Div(Mul(t.r_per_length, l.length), l.num_parallel),
        x |-> Div(Mul(t.x_per_length, l.length), l.num_parallel),
        g |-> l.g,
        b |-> Mul(Mul(Mul(2, Pi), Mul("1e-9", t.f_nom)), Prod3(t.c_per_length, l.length, l.num_parallel))]
TrafoRaw(u, ttypes) ==
  IF u.type = "" THEN [r |-> u.r, x |-> u.x, g |-> u.g, b |-> u.b, s_nom |-> u.s_nom, tap_ratio |-> u.tap_ratio, tap_side |-> u.tap_side, phase_shift |-> u.phase_shift]
  ELSE LET t == ttypes[u.type]
           r == Div(t.vscr, 100)
           g == Div(t.pfe, Mul(1000, t.s_nom))
           z == Div(t.vsc, 100)
           i == Div(t.i0, 100)
       IN [r |-> Div(r, u.num_parallel),
           x |-> Div(Sqrt(Sub(Mul(z, z), Mul(r, r))), u.num_parallel),
           g |-> Mul(g, u.num_parallel),
           b |-> NegQ(Mul(Sqrt(MaxQ(Sub(Mul(i, i), Mul(g, g)), 0)), u.num_parallel)),
           s_nom |-> t.s_nom,
           tap_ratio |-> Add(1, Mul(Sub(u.tap_position, t.tap_neutral), Div(t.tap_step, 100))),
           tap_side |-> t.tap_side,
           phase_shift |-> t.phase_shift]

(* ---- complex numbers are pairs                                          *)
CAdd(u, v) == <<Add(u[1], v[1]), Add(u[2], v[2])>>
CMul(u, v) == <<Sub(Mul(u[1], v[1]), Mul(u[2], v[2])), Add(Mul(u[1], v[2]), Mul(u[2], v[1]))>>
CConj(u) == <<u[1], NegQ(u[2])>>
CScale(u, q) == <<Mul(u[1], q), Mul(u[2], q)>>
CDiv(u, v) == LET n == Add(Mul(v[1], v[1]), Mul(v[2], v[2])) w == CMul(u, CConj(v)) IN <<Div(w[1], n), Div(w[2], n)>>
CNeg(u) == <<NegQ(u[1]), NegQ(u[2])>>
CisDeg(d) == LET a == Div(Mul(d, Pi), 180) IN <<Cos(a), Sin(a)>>
Polar(m, a) == <<Mul(m, Cos(a)), Mul(m, Sin(a))>>
IsZero(q) == Eq(Mul(q, "1e15"), 0)
(* equal up to a relative error                                            *)
Same(u, v) == IF IsZero(v) THEN IsZero(u) ELSE IF IsNaN(u) \/ IsInf(u) THEN FALSE ELSE Eq(Div(u, v), 1)

(* ---- per unit, on a base of 1 MVA                                       *)
PerUnit(br, ltypes, ttypes) ==
  IF br.cls = "Line" THEN
    LET p == LineRaw(br, ltypes) v2 == Mul(br.v_nom, br.v_nom) IN
    [r |-> Div(p.r, v2), x |-> Div(p.x, v2), g |-> Mul(p.g, v2), b |-> Mul(p.b, v2),
     reff |-> Div(p.r, v2), xeff |-> Div(p.x, v2), tap |-> 1, side |-> 0, shift |-> 0]
  ELSE
    LET p == TrafoRaw(br, ttypes)
        z == <<Div(p.r, p.s_nom), Div(p.x, p.s_nom)>>
        y == <<Mul(p.g, p.s_nom), Mul(p.b, p.s_nom)>>
        \* the star of two halves of z and the leg 1/y as an equivalent delta
        t == br.model = "t" /\ ~(IsZero(y[1]) /\ IsZero(y[2]))
        zd == CAdd(z, CScale(CMul(CMul(z, z), y), "0.25"))
        yd == CDiv(y, CAdd(<<1, 0>>, CScale(CMul(z, y), "0.25")))
    IN [r |-> IF t THEN zd[1] ELSE z[1], x |-> IF t THEN zd[2] ELSE z[2], g |-> IF t THEN yd[1] ELSE y[1], b |-> IF t THEN yd[2] ELSE y[2],
        reff |-> Mul(z[1], p.tap_ratio), xeff |-> Mul(z[2], p.tap_ratio), tap |-> p.tap_ratio, side |-> p.tap_side, shift |-> p.phase_shift]

(* ---- admittances: i0 = Y00 v0 + Y01 v1, i1 = Y10 v0 + Y11 v1            *)
(* The tap changer is on side 0 or 1 of the branch.                        *)
Admittances(u) ==
  LET ys == CDiv(<<1, 0>>, <<u.r, u.x>>)
      yy == CAdd(ys, CScale(<<u.g, u.b>>, "0.5"))
      sh == CisDeg(u.shift)
      tt == Mul(u.tap, u.tap)
  IN [y00 |-> IF u.side = 0 THEN CScale(yy, Div(1, tt)) ELSE yy,
      y11 |-> IF u.side = 1 THEN CScale(yy, Div(1, tt)) ELSE yy,
      y01 |-> CDiv(CNeg(CScale(ys, Div(1, u.tap))), CConj(sh)),
      y10 |-> CDiv(CNeg(CScale(ys, Div(1, u.tap))), sh)]
(* power entering the branch at its ends for voltages v0, v1               *)
S0(y, v0, v1) == CMul(v0, CConj(CAdd(CMul(y.y00, v0), CMul(y.y01, v1))))
S1(y, v0, v1) == CMul(v1, CConj(CAdd(CMul(y.y10, v0), CMul(y.y11, v1))))

(* ---- C29: an event observes calculate_dependent_values                  *)
(*   branches with `got`: the values reported afterwards; shunts           *)
Tell(bad, what) == IF bad THEN {what} ELSE {}
BranchSays(br, ltypes, ttypes) ==
  LET u == PerUnit(br, ltypes, ttypes)
      raw == IF br.cls = "Line" THEN LineRaw(br, ltypes) ELSE TrafoRaw(br, ttypes)
      o == br.got
  IN UNION { Tell(~Same(o[a], raw[a]), "wrong " \o a \o " of a " \o br.cls) : a \in DOMAIN raw \ {"tap_side"} }
     \cup Tell(br.cls = "Transformer" /\ o.tap_side # TrafoRaw(br, ttypes).tap_side, "wrong tap side")
     \cup UNION { Tell(~Same(o[a \o "_pu"], u[a]), "wrong " \o a \o "_pu of a " \o br.cls) : a \in {"r", "x", "g", "b"} }
     \cup Tell(~Same(o.r_pu_eff, u.reff) \/ ~Same(o.x_pu_eff, u.xeff), "wrong effective impedance of a " \o br.cls)
     \cup Tell(br.cls = "Line" /\ ~Same(o.v_nom, br.v_nom), "wrong nominal voltage of a line")
     \cup Tell(br.cls = "Line" /\ o.carrier # br.carrier, "wrong carrier of a line")
ShuntSays(s) ==
  LET v2 == Mul(s.v_nom, s.v_nom) IN
  Tell(~Same(s.got.g_pu, Mul(s.g, v2)) \/ ~Same(s.got.b_pu, Mul(s.b, v2)), "wrong per unit admittance of a shunt")
\* an unknown type is refused
TypesFails(ev) ==
  LET unknown == \E i \in DOMAIN ev.branches : LET br == ev.branches[i] IN br.type # "" /\ br.type \notin DOMAIN (IF br.cls = "Line" THEN ev.ltypes ELSE ev.ttypes)
  IN IF ev.out = "refused" THEN Tell(~unknown, "the calculation is refused")
     ELSE IF unknown THEN {"an unknown standard type is accepted"}
     ELSE UNION { BranchSays(ev.branches[i], ev.ltypes, ev.ttypes) : i \in DOMAIN ev.branches }
          \cup UNION { ShuntSays(ev.shunts[i]) : i \in DOMAIN ev.shunts }
          \cup Tell(ev.changed # << >>, "another attribute has changed")
=============================================================================
