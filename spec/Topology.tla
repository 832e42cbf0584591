------------------------------ MODULE Topology ------------------------------
(***************************************************************************)
(* Topology of the passive network (C07).  An event observes one call of   *)
(* determine_network_topology:                                             *)
(*   buses      sequence of buses [name, carrier]                          *)
(*   branches   sequence of [cls, name, from, to, on]: `on` says whether   *)
(*              the branch counts in the considered investment period      *)
(*   gens       sequence of [name, bus, control, on], before the call      *)
(*   subs       sequence of [name, slack, gen, pvs, pqs, order, branches,  *)
(*              C, K, carrier], after the call                             *)
(*   busSub, branchSub, busControl, busGen, genControl   after the call    *)
(***************************************************************************)
EXTENDS Num, TLC

Rng(s) == {s[i] : i \in DOMAIN s}
Say(bad, what) == IF bad THEN {what} ELSE {}

(* ---------------------------------------------------- connected components *)
(* Nodes are merged branch by branch: a forest of blocks as a state machine *)
(* whose behaviour ends in the partition.                                   *)
Block(P, b) == CHOOSE S \in P : b \in S
Merge(P, e) == LET x == Block(P, e.from)  y == Block(P, e.to) IN (P \ {x, y}) \cup {x \cup y}
RECURSIVE MergeAll(_, _)
MergeAll(P, es) == IF es = << >> THEN P ELSE MergeAll(Merge(P, Head(es)), Tail(es))
Parts(ev) == MergeAll({{ev.buses[i].name} : i \in DOMAIN ev.buses}, SelectSeq(ev.branches, LAMBDA e : e.on))

(* ---------------------------------------------------------- cycle matrices *)
(* C[l][c], rows in the order of the branches of the sub-network            *)
Entry(sub, l, c) == sub.C[l][c]
BranchOf(ev, b) == CHOOSE e \in Rng(ev.branches) : e.cls = b[1] /\ e.name = b[2]
Inc(e, bus) == (IF e.from = bus THEN 1 ELSE 0) - (IF e.to = bus THEN 1 ELSE 0)
RECURSIVE AddUp(_, _)
AddUp(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + AddUp(f, S \ {x})
Annihilated(ev, sub, members) ==
  \A c \in 1..sub.ncycles : \A b \in members :
     AddUp([l \in DOMAIN sub.branches |-> Entry(sub, l, c) * Inc(BranchOf(ev, sub.branches[l]), b)], DOMAIN sub.branches) = 0
(* independence of the columns by elimination; rows of M are the cycles     *)
RECURSIVE Independent(_)
Independent(M) ==
  IF M = << >> THEN TRUE
  ELSE LET h == Head(M)
           ps == {j \in DOMAIN h : ~Eq(h[j], 0)}
       IN IF ps = {} THEN FALSE
          ELSE LET j == CHOOSE j \in ps : TRUE
                   less(r) == [k \in DOMAIN r |-> Sub(r[k], Mul(Div(r[j], h[j]), h[k]))]
                   rest == Tail(M)
               IN Independent([i \in DOMAIN rest |-> less(rest[i])])
Cycles(sub) == [c \in 1..sub.ncycles |-> [l \in DOMAIN sub.branches |-> Entry(sub, l, c)]]

(* ------------------------------------------------------------ bus controls *)
GensIn(ev, S) == SelectSeq(ev.gens, LAMBDA g : g.bus \in S /\ g.on)
SlackGen(ev, S) ==
  LET gs == GensIn(ev, S)
      sl == SelectSeq(gs, LAMBDA g : g.control = "Slack")
  IN IF gs = << >> THEN "" ELSE IF sl = << >> THEN gs[1].name ELSE sl[1].name
SlackBus(ev, S) ==
  LET g == SlackGen(ev, S)
  IN IF g = "" THEN (CHOOSE i \in DOMAIN ev.buses : ev.buses[i].name \in S /\ \A j \in DOMAIN ev.buses : ev.buses[j].name \in S => i <= j)
     ELSE CHOOSE i \in DOMAIN ev.buses : \E k \in DOMAIN ev.gens : ev.gens[k].name = g /\ ev.gens[k].bus = ev.buses[i].name
(* a generator with control PV, or a demoted further slack                  *)
Voltage(ev, S, b) == \E k \in DOMAIN ev.gens : LET g == ev.gens[k] IN
     g.on /\ g.bus = b /\ g.name # SlackGen(ev, S) /\ g.control \in {"PV", "Slack"}
Control(ev, S, b) == IF b = ev.buses[SlackBus(ev, S)].name THEN "Slack" ELSE IF Voltage(ev, S, b) THEN "PV" ELSE "PQ"

(* ------------------------------------------------------------ the verdict *)
SubFails(ev, sub, S) ==
  LET es == {e \in Rng(ev.branches) : e.on /\ e.from \in S}
      mine == {<<e.cls, e.name>> : e \in es}
      slack == ev.buses[SlackBus(ev, S)].name
  IN Say(\E l \in DOMAIN sub.branches : BranchOf(ev, sub.branches[l]).on /\ sub.branches[l] \notin mine, "a branch of another sub-network")
     \cup Say(~(mine \subseteq Rng(sub.branches)), "a branch is missing in its sub-network")
     \cup Say(sub.ncycles # Cardinality(es) - Cardinality(S) + 1, "the number of cycles is wrong")
     \cup Say(\E l \in DOMAIN sub.branches : ~BranchOf(ev, sub.branches[l]).on /\ \E c \in 1..sub.ncycles : Entry(sub, l, c) # 0, "a cycle through an inactive branch")
     \cup Say(\E l \in DOMAIN sub.branches, c \in 1..sub.ncycles : Entry(sub, l, c) \notin {-1, 0, 1}, "a cycle uses a branch twice")
     \cup Say(~Annihilated(ev, sub, S), "a cycle is not closed")
     \cup Say(~Independent(Cycles(sub)), "the cycles are not independent")
     \cup Say(sub.slack # slack, "wrong slack bus")
     \cup Say(sub.gen # SlackGen(ev, S), "wrong slack generator")
     \cup Say(\E b \in S : ev.busControl[b] # Control(ev, S, b), "wrong control of a bus")
     \cup Say(Rng(sub.pvs) # {b \in S : Control(ev, S, b) = "PV"} \/ Rng(sub.pqs) # {b \in S : Control(ev, S, b) = "PQ"}, "wrong list of controlled buses")
     \cup Say(Rng(sub.order) # S \/ Len(sub.order) # Cardinality(S) \/ sub.order[1] # slack
              \/ \E i, j \in DOMAIN sub.order : i < j /\ Control(ev, S, sub.order[i]) = "PQ" /\ Control(ev, S, sub.order[j]) = "PV", "wrong order of the buses")
     \cup Say(\E b \in S : ev.busControl[b] = "Slack" /\ SlackGen(ev, S) # "" /\ ev.busGen[b] # SlackGen(ev, S), "the slack bus names another generator")
     \cup Say(\E k \in DOMAIN ev.gens : ev.gens[k].on /\ ev.gens[k].bus \in S /\
               ev.genControl[ev.gens[k].name] # (IF ev.gens[k].name = SlackGen(ev, S) THEN "Slack" ELSE IF ev.gens[k].control = "Slack" THEN "PV" ELSE ev.gens[k].control),
               "wrong control of a generator")
     \cup Say(\E b \in S : \E i \in DOMAIN ev.buses : ev.buses[i].name = b /\ ev.buses[i].carrier # sub.carrier /\ \A j \in DOMAIN ev.buses : ev.buses[j].name \in S => ev.buses[j].carrier = ev.buses[i].carrier, "wrong carrier of a sub-network")

Failures(ev) ==
  IF ev.out = "refused" THEN {"determining the topology is refused"}
  ELSE
  LET P == Parts(ev)
      name(S) == ev.busSub[CHOOSE b \in S : TRUE]
      listed == {S \in P : ~ev.skip \/ Cardinality(S) > 1}
      subnames == [i \in DOMAIN ev.subs |-> ev.subs[i].name]
  IN Say(\E S \in P : \E b \in S : ev.busSub[b] # name(S), "connected buses in different sub-networks")
     \cup Say(Cardinality({name(S) : S \in P}) # Cardinality(P), "buses which are not connected in the same sub-network")
     \cup Say(Rng(subnames) # {name(S) : S \in listed} \/ Len(subnames) # Cardinality(listed), "the list of sub-networks is wrong")
     \cup Say(\E i \in DOMAIN ev.branches : ev.branches[i].on /\ ev.branchSub[i] # ev.busSub[ev.branches[i].from], "an active branch without its sub-network")
     \cup Say(ev.period /\ \E i \in DOMAIN ev.branches : ~ev.branches[i].on /\ ev.branchSub[i] # "nan", "a branch which is not active belongs to a sub-network")
     \cup Say(\E i \in DOMAIN ev.links : ev.links[i] # "", "a link belongs to a sub-network")
     \cup (IF Rng(subnames) = {name(S) : S \in listed} THEN
           UNION {LET i == CHOOSE i \in DOMAIN ev.subs : ev.subs[i].name = name(S) IN SubFails(ev, ev.subs[i], S) : S \in listed} ELSE {})

(* incidence and adjacency matrices of a network or sub-network             *)
(* ev.buses: names, ev.branches: [from, to]; K[b][l], A[b][c] entries       *)
MatrixFails(ev) ==
  IF ev.out = "refused" THEN {ev.what \o " is refused"}
  ELSE IF ev.what = "incidence" THEN
    Say(Len(ev.K) # Len(ev.buses) \/ (\E b \in DOMAIN ev.buses : Len(ev.K[b]) # Len(ev.branches))
        \/ \E b \in DOMAIN ev.buses, l \in DOMAIN ev.branches : ev.K[b][l] # Inc(ev.branches[l], ev.buses[b]), "the incidence matrix is wrong")
  ELSE IF ev.what = "adjacency" THEN
    Say(\E a \in DOMAIN ev.buses, b \in DOMAIN ev.buses :
          ev.A[a][b] # Cardinality({l \in DOMAIN ev.branches : ev.branches[l].from = ev.buses[a] /\ ev.branches[l].to = ev.buses[b]}), "the adjacency matrix is wrong")
  ELSE Say(Rng(ev.nodes) # Rng(ev.buses) \/ Len(ev.edges) # Len(ev.branches)
           \/ \E l \in DOMAIN ev.branches : ~\E k \in DOMAIN ev.edges : ev.edges[k].key = ev.branches[l].key /\ {ev.edges[k].u, ev.edges[k].v} = {ev.branches[l].from, ev.branches[l].to}, "the graph is wrong")
AnyFails(ev) == IF ev.kind = "topology" THEN Failures(ev) ELSE MatrixFails(ev)
=============================================================================
