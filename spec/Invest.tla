------------------------------- MODULE Invest -------------------------------
(***************************************************************************)
(* Capacity decisions (C19).                                               *)
(***************************************************************************)
EXTENDS Assets

Classes == << [c |-> "Generator", f |-> "gens", nom |-> "p_nom"], [c |-> "Link", f |-> "links", nom |-> "p_nom"],
              [c |-> "Line", f |-> "lines", nom |-> "s_nom"], [c |-> "Transformer", f |-> "trafos", nom |-> "s_nom"],
              [c |-> "StorageUnit", f |-> "sus", nom |-> "p_nom"], [c |-> "Store", f |-> "stores", nom |-> "e_nom"] >>
ClassSet == Range(Classes)
Extendable(cs, cl) == {a \in Range(cs[cl.f]) : a[cl.nom \o "_extendable"]}
CapOf(x, cl, a) == x.cap[cl.c][a.id]

AssetFails(x, cl, a) ==
          LET cap == CapOf(x, cl, a)
              set == a[cl.nom \o "_set"]
              mod == a[cl.nom \o "_mod"]
          IN FailIf(Less(cap, a[cl.nom \o "_min"]), cl.c \o " capacity below its minimum")
             \cup FailIf(Less(a[cl.nom \o "_max"], cap), cl.c \o " capacity above its maximum")
             \cup (IF IsNaN(set) THEN {} ELSE FailIf(~Eq(cap, set), cl.c \o " capacity differs from its set-point"))
             \cup (IF Less(0, mod) THEN LET m == x.nmod[cl.c][a.id]
                                        IN FailIf(~IsInt(m) \/ Less(m, 0) \/ ~Eq(cap, Mul(m, mod)),
                                                  cl.c \o " capacity is not a whole number of modules")
                   ELSE {})
InvestFails(cs, x) == UNION {UNION {AssetFails(x, cl, a) : a \in Extendable(cs, cl)} : cl \in ClassSet}
=============================================================================
