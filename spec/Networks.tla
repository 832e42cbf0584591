------------------------------ MODULE Networks ------------------------------
(***************************************************************************)
(* Operations on whole networks (C03, C06): copies, slices, merges and     *)
(* equality, over the states of Container.                                 *)
(***************************************************************************)
EXTENDS Container

Pick(s, at) == [i \in DOMAIN at |-> s[at[i]]]
Positions(all, some) == [i \in DOMAIN some |-> IndexOf(all, some[i])]
(* the state restricted to the snapshots `snaps` and investment periods `pers` *)
AtSnaps(net, snaps, pers) ==
  LET at == Positions(net.snaps, snaps)
      cls1(c) == [c EXCEPT !.series = [k \in DOMAIN c.series |-> [n \in DOMAIN c.series[k] |-> Pick(c.series[k][n], at)]]]
  IN [net EXCEPT !.snaps = snaps, !.periods = pers, !.ipw = pers,
                 !.w = [k \in DOMAIN net.w |-> Pick(net.w[k], at)],
                 !.pw = IF ~(Rng(pers) \subseteq Rng(net.ipw)) \/ pers = << >> THEN << >>
                        ELSE [k \in DOMAIN net.pw |-> Pick(net.pw[k], Positions(net.ipw, pers))],
                 !.comps = [cls \in DOMAIN net.comps |-> cls1(net.comps[cls])]]
KeepNames(c, S) == [c EXCEPT !.names = S, !.static = Only(c.static, S), !.series = [k \in DOMAIN c.series |-> Only(c.series[k], S)]]
Defaulted(cls, row) == [k \in DOMAIN row |-> IF row[k] = "nan" /\ Known(cls, k) THEN Default(cls, k) ELSE row[k]]

(* ------------------------------------------------------------------ copy *)
(* ev.what = "all" | "part": ev.snaps, ev.periods the requested ones       *)
CopyOf(ev) == IF ev.what = "all" THEN ev.start ELSE AtSnaps(ev.start, ev.snaps, ev.periods)

(* ----------------------------------------------------------------- slice *)
BusCols == {"bus", "bus0", "bus1"} \cup PortBus
Inside(cls, row, buses) ==
  \A k \in DOMAIN row \cap BusCols : row[k] \in {"'" \o b : b \in buses} \/ (k \in PortBus /\ row[k] \in {"'", "nan"})
OneOrBranch == {"Generator", "Load", "Store", "StorageUnit", "ShuntImpedance", "Line", "Transformer", "Link"}
SliceOf(ev) ==
  LET buses == Rng(ev.buses)
      base == AtSnaps(ev.start, ev.snaps, ev.periods)
      one(cls) == LET c == base.comps[cls]
                  IN CASE cls = "Bus" -> KeepNames(c, buses)
                       [] cls = "SubNetwork" -> KeepNames(c, {})
                       [] cls \in OneOrBranch -> KeepNames(c, {n \in DOMAIN c.static : Inside(cls, c.static[n], buses)})
                       [] OTHER -> c
  IN [base EXCEPT !.comps = [cls \in DOMAIN base.comps |-> one(cls)]]

(* ----------------------------------------------------------------- merge *)
Merged(ev) == DOMAIN ev.start.comps \ Rng(ev.skip)
MergeRefused(ev) ==
  \/ \E cls \in Merged(ev) \ {"SubNetwork"} : Rng(ev.start.comps[cls].names) \cap Rng(ev.other.comps[cls].names) # {}
  \/ ev.time /\ (ev.start.snaps # ev.other.snaps \/ ev.start.w # ev.other.w)
MergeOf(ev) ==
  LET one(cls) ==
        LET c == ev.start.comps[cls]  o == ev.other.comps[cls]
            cols == IF DOMAIN c.static = {} THEN Rng(o.cols) ELSE Rng(c.cols) \cup Rng(o.cols)
            row(f, n) == [k \in cols |-> IF k \in DOMAIN f[n] /\ f[n][k] # "nan" THEN f[n][k] ELSE Default(cls, k)]
            full(f, n) == [k \in cols |-> IF k \in DOMAIN f[n] THEN f[n][k] ELSE Default(cls, k)]
            ks == DOMAIN c.series \cup (IF ev.time THEN DOMAIN o.series ELSE {})
        IN [c EXCEPT !.static = [n \in DOMAIN c.static \cup DOMAIN o.static |->
                                    IF n \in DOMAIN c.static THEN full(c.static, n) ELSE row(o.static, n)],
                     !.names = Rng(c.names) \cup Rng(o.names), !.cols = cols,
                     !.series = [k \in ks |-> Upd(Get(c.series, k, << >>), IF ev.time THEN Get(o.series, k, << >>) ELSE << >>)]]
  IN [ev.start EXCEPT !.comps = [cls \in DOMAIN ev.start.comps |->
          IF cls \in Merged(ev) \ {"SubNetwork"} /\ DOMAIN ev.other.comps[cls].static # {} THEN one(cls) ELSE ev.start.comps[cls]]]

(* ---------------------------------------------------- what is unspecified *)
(* A value missing from a table may become the default when components are *)
(* added again; meta data of a slice; custom columns of empty tables;      *)
(* bookkeeping of sub-networks in a slice.                                 *)
LooseRows(cls, want, got) ==
  [want EXCEPT !.static = [n \in DOMAIN want.static |->
     IF n \notin DOMAIN got.static THEN want.static[n] ELSE
     [k \in DOMAIN want.static[n] |->
        IF k \in DOMAIN got.static[n] /\ want.static[n][k] = "nan" /\ got.static[n][k] = Default(cls, k) THEN got.static[n][k]
        ELSE want.static[n][k]]]]
LooseNet(want, got) == [want EXCEPT
     \* weightings of periods which had none
     !.pw = IF want.pw = << >> THEN got.pw ELSE @, !.ipw = IF want.pw = << >> THEN got.ipw ELSE @,
     !.comps = [cls \in DOMAIN want.comps |->
     IF cls \in DOMAIN got.comps THEN LooseRows(cls, want.comps[cls], got.comps[cls]) ELSE want.comps[cls]]]
(* sub-network membership of a slice is not determined *)
NoMembership(net) == [net EXCEPT !.comps = [cls \in DOMAIN net.comps |->
     [net.comps[cls] EXCEPT !.static = [n \in DOMAIN net.comps[cls].static |-> Without(net.comps[cls].static[n], {"sub_network"})]]]]

(* results which hold only the default are the same as no results *)
Outputs(cls) == IF cls \in DOMAIN VaryingDefaults THEN (DOMAIN VaryingDefaults[cls] \ DOMAIN StaticDefaults[cls]) \cup (IF cls = "Link" THEN {"p" \o p : p \in Ports} ELSE {}) ELSE {}
Plain(cls, k, f) == Without(f, {n \in DOMAIN f : \A t \in DOMAIN f[n] : f[n][t] \in {VDefault(cls, k), "nan"}})
NoResults(net) == [net EXCEPT !.comps = [cls \in DOMAIN net.comps |->
     [net.comps[cls] EXCEPT !.series = [k \in DOMAIN @ |-> IF k \in Outputs(cls) THEN Plain(cls, k, @[k]) ELSE @[k]]]]]
Outcome(ev, refused, want) ==
  IF refused THEN Say(ev.out # "refused", "an invalid call (" \o ev.kind \o ") is accepted")
  ELSE IF ev.out = "refused" THEN {"a valid call (" \o ev.kind \o ") is refused"}
  ELSE {ev.kind \o ": " \o d : d \in Diff(want, ev.result)}
Unchanged(a, b, what) == {what \o ": " \o d : d \in Diff(a, b)}
(* every event also carries the observations of both networks after the    *)
(* call and after further edits of the other side                          *)
Failures(ev) ==
  CASE ev.kind = "copy" ->
         Outcome(ev, FALSE, IF ev.what = "all" \/ ev.out = "refused" THEN CopyOf(ev) ELSE LooseNet(CopyOf(ev), ev.result))
         \cup Unchanged(ev.start, ev.startAfter, "copying changes the network")
         \cup (IF ev.out = "refused" THEN {} ELSE
               Unchanged(ev.result, ev.resultLater, "editing the original changes the copy")
               \cup Unchanged(ev.startMid, ev.startLater, "editing the copy changes the original")
               \cup Coherent(ev.result)
               \cup Say(~ev.detached, "the sub-networks of the copy refer to the original network"))
    [] ev.kind = "slice" ->
         Outcome([ev EXCEPT !.result = NoMembership(@)], FALSE,
                 IF ev.out = "refused" THEN ev.start
                 ELSE LET l == LooseNet(SliceOf(ev), ev.result) IN NoMembership([l EXCEPT !.meta = ev.result.meta]))
         \cup Unchanged(ev.start, ev.startAfter, "slicing changes the network")
         \cup (IF ev.out = "refused" THEN {} ELSE Coherent(ev.result)
               \cup Unchanged(ev.startAfter, ev.startLater, "editing the slice changes the original"))
    [] ev.kind = "merge" ->
         Outcome(IF ev.out = "ok" THEN [ev EXCEPT !.result = NoResults(@)] ELSE ev, MergeRefused(ev),
                 IF ev.out = "refused" THEN ev.start ELSE NoResults(LooseNet(MergeOf(ev), ev.result)))
         \cup Unchanged(ev.other, ev.otherAfter, "merging changes the other network")
         \cup (IF ev.inplace /\ ev.out = "ok" THEN {} ELSE Unchanged(ev.start, ev.startAfter, "merging changes the network"))
         \cup (IF ev.out = "refused" THEN {} ELSE Coherent(ev.result)
               \cup Unchanged(ev.otherAfter, ev.otherLater, "editing the merged network changes the other network")
               \cup (IF ev.inplace THEN {} ELSE Unchanged(ev.startAfter, ev.startLater, "editing the merged network changes the first network")))
    [] ev.kind = "equality" ->
         LET d == Diff(ev.x, ev.y)
             same == d = {} /\ ev.solvedAlike
         IN Say("raised" \in {ev.xy, ev.yx, ev.xx, ev.yy, ev.strict}, "comparing raises an error")
            \cup Say(ev.xx = "no" \/ ev.yy = "no", "a network differs from itself")
            \cup Say(ev.xy # ev.yx, "equality is not symmetric")
            \cup Say(d # {} /\ ev.xy = "yes", "networks which differ are equal")
            \cup Say(same /\ ev.layout /\ ev.xy = "no", "networks with the same data are not equal")
            \cup Say(ev.xy \in {"yes", "no"} /\ ev.strict # ev.xy, "the strict comparison disagrees")
            \cup Unchanged(ev.x, ev.xAfter, "comparing changes a network") \cup Unchanged(ev.y, ev.yAfter, "comparing changes a network")
=============================================================================
