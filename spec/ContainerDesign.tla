--------------------------- MODULE ContainerDesign ---------------------------
(* The transitions of Container over a small universe (two classes, three    *)
(* names, few values and snapshots), explored exhaustively, and simulated to *)
(* generate histories for the real code.                                     *)
EXTENDS Container, TLC, Json, SequencesExt
CONSTANTS MaxLen, Emit, Rich
VARIABLES net, last, hist
vars == <<net, last, hist>>
(* a few of the documented attributes suffice (cfg: StaticDefaults <- FewAttributes) *)
FewAttributes == [Bus |-> [carrier |-> "'AC", v_mag_pu_set |-> "1"], Generator |-> [bus |-> "'", p_max_pu |-> "1"]]

Classes == {"Bus", "Generator"}
Names == {"a", "b"} \cup (IF Rich THEN {"c"} ELSE {})
Empty == [names |-> << >>, cols |-> << >>, static |-> << >>, series |-> << >>]
NoComps == [cls \in Classes |-> [Empty EXCEPT !.cols = SetToSeq(DOMAIN StaticDefaults[cls])]]
Start == [name |-> "", snaps |-> <<"now">>, w |-> [k \in {"objective", "stores", "generators"} |-> <<"1">>],
          periods |-> << >>, ipw |-> << >>, pw |-> << >>, comps |-> NoComps, bad |-> << >>, meta |-> "{}", crs |-> "4326"]

(* --- what may be asked: valid and invalid calls                            *)
Arg(k, form, v, idx, cols) == [k |-> k, form |-> form, v |-> v, idx |-> idx, cols |-> cols]
Values(cls) == IF cls = "Bus" THEN {"2"} ELSE {"3"}
SeriesAttr(cls) == IF cls = "Bus" THEN "v_mag_pu_set" ELSE "p_max_pu"
Ramp(n, z) == [t \in 1..n |-> ToString(t + z)]
ArgSets(cls, single, ns) ==
  LET T == Len(net.snaps) a == SeriesAttr(cls) IN
  {<< >>}
  \cup {<<Arg(a, "scalar", "5", << >>, << >>)>>}
  \cup {<<Arg(a, "seq", Ramp(n, 0), << >>, << >>)>> : n \in (IF single THEN {T, T + 1} ELSE {Len(ns)})}
  \cup (IF single THEN {<<Arg(a, "labelled", Ramp(T, 1), net.snaps, << >>)>>}
        ELSE {<<Arg(a, "frame", [t \in 1..T |-> [i \in 1..Len(ns) |-> ToString(10 * i + t)]], net.snaps, c)>>
              : c \in {ns, [i \in 1..Len(ns) |-> ns[Len(ns) + 1 - i]]}})
  \cup (IF cls = "Generator" THEN {<<Arg("bus", "scalar", "'" \o b, << >>, << >>)>> : b \in {"a"} \cup (IF Rich THEN Names ELSE {})} ELSE {})
  \cup (IF Rich THEN {<<Arg("note", "scalar", "'x", << >>, << >>)>>} ELSE {})
NameSeqs == {<<x>> : x \in Names} \cup {<<"a", "b">>} \cup (IF Rich THEN {<<"b", "a">>, <<"c", "c">>, <<"b", "c">>} ELSE {})
AddOps == UNION {UNION {UNION {{[kind |-> "add", cls |-> cls, names |-> ns, single |-> si, overwrite |-> ow, args |-> as]
                     : as \in ArgSets(cls, si, ns)} : si \in IF Len(ns) = 1 THEN BOOLEAN ELSE {FALSE}} : ns \in NameSeqs} : cls \in Classes, ow \in BOOLEAN}
RemoveOps == [kind : {"remove"}, cls : Classes, names : {<<x>> : x \in Names} \cup {<<"a", "b">>}]
RenameOps == [kind : {"rename"}, cls : Classes, map : {[x \in {"a"} |-> "b"], [x \in {"a", "b"} |-> IF x = "a" THEN "b" ELSE "a"]}
                                                      \cup (IF Rich THEN {[x \in {"b"} |-> "c"], [x \in {"c"} |-> "z"], [x \in {"z"} |-> "c"]} ELSE {})]
SnapOp(s, m, st, ps) == [kind |-> "snapshots", snaps |-> s, multi |-> m, steps |-> st, periods |-> ps, default |-> "2", timezone |-> FALSE,
                         loosew |-> m /\ ~IsMulti(net)]
SnapOps == {SnapOp(s, FALSE, [t \in DOMAIN s |-> ""], << >>) : s \in {<<"0", "1">>, <<"1">>, <<"1", "2">>, << >>}}
           \cup {SnapOp(<<"2030|0", "2030|1">>, TRUE, <<"0", "1">>, <<"2030">>)}
PeriodOps == {[kind |-> "periods", ps |-> p, valid |-> v] : p \in {<<"2020", "2030">>, <<"2030">>}, v \in {TRUE}}
             \cup {[kind |-> "periods", ps |-> <<"2030", "2020">>, valid |-> FALSE]}
WeightOps == {[kind |-> "weights", idx |-> i, v |-> Ramp(Len(i), 3), column |-> c]
              : c \in {"all", "objective"}, i \in {net.snaps, [t \in DOMAIN net.snaps |-> net.snaps[Len(net.snaps) + 1 - t]]}}
SetOps == UNION {{[kind |-> "set", cls |-> cls, name |-> n, k |-> SeriesAttr(cls), v |-> "9"] : n \in Rng(net.comps[cls].names)} : cls \in Classes}
SetSerOps == UNION {{[kind |-> "set series", cls |-> cls, name |-> n, k |-> SeriesAttr(cls), v |-> Ramp(Len(net.snaps), 6)] : n \in Rng(net.comps[cls].names)} : cls \in Classes}
Kinds == <<"add", "remove", "rename", "snapshots", "periods", "weights", "set", "set series", "add", "add", "add", "add", "rename">>
(* additions are simulated more often *)
Picks == IF Emit THEN DOMAIN Kinds ELSE 1..8
OpsOf(k) ==
  CASE k = "add" -> AddOps
    [] k = "remove" -> RemoveOps
    [] k = "rename" -> RenameOps
    [] k = "snapshots" -> {o \in SnapOps : o.multi = IsMulti(net) \/ o.snaps # << >>}
    [] k = "periods" -> PeriodOps
    [] k = "weights" -> WeightOps
    [] k = "set" -> SetOps
    [] k = "set series" -> SetSerOps

(* Container keeps the order of rows and columns open; here any order will do *)
Ordered(n) == [n EXCEPT !.comps = [cls \in DOMAIN n.comps |-> [n.comps[cls] EXCEPT !.names = SetToSeq(DOMAIN n.comps[cls].static),
                 !.cols = IF DOMAIN n.comps[cls].static = {} THEN SetToSeq(DOMAIN StaticDefaults[cls])
                          ELSE SetToSeq(DOMAIN n.comps[cls].static[CHOOSE x \in DOMAIN n.comps[cls].static : TRUE])]]]
Do(n, o) == Ordered(Apply(n, o))
Done(n, o) == IF Refused(n, o) THEN n ELSE Do(n, o)
Init == net = Start /\ last = [kind |-> "start"] /\ hist = << >>
Step(o) == net' = Done(net, o) /\ last' = o /\ hist' = IF Emit THEN Append(hist, o) ELSE << >>
Next == (Emit => Len(hist) < MaxLen) /\ \E j \in Picks : LET k == Kinds[j] IN OpsOf(k) # {} /\ \E o \in (IF Emit THEN {RandomElement(OpsOf(k))} ELSE OpsOf(k)) : Step(o)
Spec == Init /\ [][Next]_vars
View == net
Short == TLCGet("level") <= MaxLen

(* --- what every state satisfies                                            *)
Sane == /\ Coherent(net) = {}
        /\ \A cls \in Classes : LET c == net.comps[cls] IN
             /\ DOMAIN StaticDefaults[cls] \subseteq Rng(c.cols)
             /\ \A n \in DOMAIN c.static : DOMAIN c.static[n] = Rng(c.cols)
             /\ \A k \in DOMAIN c.series : \A n \in DOMAIN c.series[k] : DOMAIN c.series[k][n] = DOMAIN net.snaps
        /\ \A k \in DOMAIN net.w : DOMAIN net.w[k] = DOMAIN net.snaps
        /\ (net.periods # << >>) => net.ipw = net.periods \/ net.pw = << >> \/ Rng(net.ipw) # Rng(net.periods)
(* adding new components and removing them again leaves the others as they were *)
AddRemove == \A o \in AddOps :
  (~Refused(net, o) /\ Rng(o.names) \cap Rng(net.comps[o.cls].names) = {}) =>
     LET n2 == Do(Do(net, o), [kind |-> "remove", cls |-> o.cls, names |-> o.names]) IN
     /\ \A cls \in Classes \ {o.cls} : n2.comps[cls] = net.comps[cls]
     /\ DOMAIN n2.comps[o.cls].static = DOMAIN net.comps[o.cls].static
     /\ \A n \in DOMAIN net.comps[o.cls].static : \A k \in DOMAIN net.comps[o.cls].static[n] : n2.comps[o.cls].static[n][k] = net.comps[o.cls].static[n][k]
     /\ NonEmpty(n2.comps[o.cls].series) = NonEmpty(net.comps[o.cls].series)
     /\ \A k \in NonEmpty(net.comps[o.cls].series) : n2.comps[o.cls].series[k] = net.comps[o.cls].series[k]
(* renaming and renaming back is nothing, references included (unless the new name was referred to before) *)
Undo(m) == [y \in {m[x] : x \in DOMAIN m} |-> CHOOSE x \in DOMAIN m : m[x] = y]
Referred(n, cls, x) == \E c2 \in Classes : \E i \in DOMAIN n.comps[c2].static : \E k \in DOMAIN n.comps[c2].static[i] :
                          Refers(cls, k) /\ n.comps[c2].static[i][k] = "'" \o x
ThereAndBack == \A o \in RenameOps :
  LET ns == Rng(net.comps[o.cls].names) m == o.map IN
  (~Refused(net, o) /\ DOMAIN m \subseteq ns /\ \A x \in DOMAIN m : m[x] \in DOMAIN m \/ ~Referred(net, o.cls, m[x])) =>
    Diff(Do(Do(net, o), [o EXCEPT !.map = Undo(m)]), net) = {}
(* new snapshots keep what both have; more snapshots and back is nothing       *)
Keeps == \A o \in SnapOps : (~Refused(net, o) /\ o.multi = IsMulti(net)) =>
  LET n2 == Do(net, o) IN
  \A cls \in Classes : \A k \in DOMAIN net.comps[cls].series : \A n \in DOMAIN net.comps[cls].series[k] :
    \A t \in DOMAIN o.snaps : n2.comps[cls].series[k][n][t] =
        IF o.snaps[t] \in Rng(net.snaps) THEN net.comps[cls].series[k][n][IndexOf(net.snaps, o.snaps[t])] ELSE VDefault(cls, k)
WiderAndBack == ~IsMulti(net) =>
  LET more == Append(net.snaps, "later")
      o(s) == SnapOp(s, FALSE, [t \in DOMAIN s |-> ""], << >>)
  IN Diff(Do(Do(net, o(more)), o(net.snaps)), net) = {}
(* every investment period repeats the flat series                             *)
Repeats == ~IsMulti(net) => \A o \in PeriodOps : ~Refused(net, o) =>
  LET n2 == Do(net, o) T == Len(net.snaps) IN
  /\ Len(n2.snaps) = T * Len(o.ps) /\ NoDup(n2.snaps)
  /\ \A cls \in Classes : \A k \in DOMAIN net.comps[cls].series : \A n \in DOMAIN net.comps[cls].series[k] :
       \A p \in DOMAIN o.ps : SubSeq(n2.comps[cls].series[k][n], (p - 1) * T + 1, p * T) = net.comps[cls].series[k][n]

(* --- what every step satisfies: nothing but what the call names changes      *)
Frame == [][ LET o == last' IN
  /\ \A cls \in Classes : LET x == net.comps[cls] y == net'.comps[cls] IN
       CASE o.kind \in {"add", "remove"} /\ cls = o.cls ->
              \A n \in DOMAIN x.static \ Rng(o.names) : /\ n \in DOMAIN y.static
                 /\ \A f \in DOMAIN x.static[n] : y.static[n][f] = x.static[n][f]
                 /\ \A k \in DOMAIN x.series : n \in DOMAIN x.series[k] => y.series[k][n] = x.series[k][n]
         [] o.kind \in {"add", "remove"} -> y = x
         [] o.kind = "rename" -> Cardinality(DOMAIN y.static) = Cardinality(DOMAIN x.static)
         [] o.kind \in {"snapshots", "periods"} -> y.static = x.static /\ y.names = x.names
         [] o.kind = "weights" -> y = x
         [] OTHER -> TRUE
  /\ o.kind \notin {"snapshots", "periods"} => net'.snaps = net.snaps /\ net'.periods = net.periods
  /\ o.kind \notin {"snapshots", "periods", "weights"} => net'.w = net.w ]_<<net, last>>
Out == (Emit /\ Len(hist) = MaxLen) => PrintT("@B@" \o ToJson(hist))
=============================================================================
