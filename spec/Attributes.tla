----------------------------- MODULE Attributes -----------------------------
(***************************************************************************)
(* Resolution of attributes and activity of components (C05).              *)
(* A component class is [names, static, series]; a query names the class,  *)
(* the attribute, the snapshots and the components asked for.              *)
(***************************************************************************)
EXTENDS Num, TLC

Rng(s) == {s[i] : i \in DOMAIN s}
PosOf(s, x) == CHOOSE i \in DOMAIN s : s[i] = x

(* the value of attribute k of component n at snapshot t *)
HasSeries(cls, k, n) == k \in DOMAIN cls.series /\ n \in DOMAIN cls.series[k]
ValueAt(cls, snaps, k, n, t) == IF HasSeries(cls, k, n) THEN cls.series[k][n][PosOf(snaps, t)] ELSE cls.static[n][k]

(* the components asked for, in the order of the network *)
Chosen(cls, some) == SelectSeq(cls.names, LAMBDA n : n \in some)

(* activity *)
InLife(row, p) == Leq(row["build_year"], p) /\ Less(p, Add(row["build_year"], row["lifetime"]))
HasLife(row) == {"build_year", "lifetime"} \subseteq DOMAIN row
Active(cls, n, periods) ==
  LET row == cls.static[n]
  IN row["active"] = "True" /\ (periods = << >> \/ ~HasLife(row) \/ \E p \in Rng(periods) : InLife(row, p))
(* at a snapshot: in the snapshot's period if several periods are planned together *)
ActiveAt(cls, n, period) == Active(cls, n, IF period = "" THEN << >> ELSE << period >>)

(* per unit bounds on the dispatch *)
Lower(ev, n, t) ==
  IF ev.class \in {"Line", "Transformer"} THEN NegQ(ValueAt(ev.cls, ev.snaps, "s_max_pu", n, t))
  ELSE IF ev.class = "StorageUnit" THEN 0
  ELSE ValueAt(ev.cls, ev.snaps, ev.min, n, t)
Upper(ev, n, t) ==
  IF ev.class = "StorageUnit" /\ ev.attr = "p_store" THEN NegQ(ValueAt(ev.cls, ev.snaps, "p_min_pu", n, t))
  ELSE IF ev.class = "StorageUnit" /\ ev.attr = "state_of_charge" THEN ev.cls.static[n]["max_hours"]
  ELSE ValueAt(ev.cls, ev.snaps, ev.max, n, t)

Say(bad, what) == IF bad THEN {what} ELSE {}
Table(ev, Want(_, _), what) ==
  Say(ev.cols # ev.wantcols, what \o ": the components are not the requested ones")
  \cup Say(ev.rows # ev.asked, what \o ": the snapshots are not the requested ones")
  \cup Say(ev.cols = ev.wantcols /\ ev.rows = ev.asked /\
           \E i \in DOMAIN ev.asked, j \in DOMAIN ev.cols : ~Eq(ev.table[i][j], Want(ev.cols[j], ev.asked[i])), what \o ": wrong value")

Failures(ev) ==
  IF ev.out = "refused" THEN {ev.kind \o ": a valid query is refused"} ELSE
  CASE ev.kind \in {"dense", "iter"} ->
         LET e == [ev EXCEPT !.wantcols = IF ev.kind = "dense" THEN Chosen(ev.cls, Rng(ev.some)) ELSE ev.cols]
         IN Table(e, LAMBDA n, t : ValueAt(ev.cls, ev.snaps, ev.attr, n, t), ev.kind)
            \cup Say(Rng(ev.cols) # Rng(Chosen(ev.cls, Rng(ev.some))) \/ Len(ev.cols) # Cardinality(Rng(ev.cols)), ev.kind \o ": the components are not the requested ones")
    [] ev.kind = "bounds" ->
         Table([ev EXCEPT !.table = ev.lower], LAMBDA n, t : Lower(ev, n, t), "lower bound")
         \cup Table([ev EXCEPT !.table = ev.upper], LAMBDA n, t : Upper(ev, n, t), "upper bound")
    [] ev.kind = "active" ->
         Say(ev.cols # ev.cls.names, "activity: the components are not all")
         \cup Say(ev.cols = ev.cls.names /\ \E j \in DOMAIN ev.cols : ev.row[j] # Active(ev.cls, ev.cols[j], ev.periods), "activity in the periods is wrong")
    [] ev.kind = "mask" ->
         Say(ev.cols # ev.wantcols \/ ev.rows # ev.asked, "activity mask: not the requested components or snapshots")
         \cup Say(ev.cols = ev.wantcols /\ ev.rows = ev.asked /\
              \E i \in DOMAIN ev.asked, j \in DOMAIN ev.cols : ev.table[i][j] # ActiveAt(ev.cls, ev.cols[j], ev.periodOf[i]), "activity at a snapshot is wrong")
    [] ev.kind = "choice" ->
         Say(ev.ext # SelectSeq(ev.cls.names, LAMBDA n : ev.cls.static[n][ev.nom \o "_extendable"] = "True"), "extendable components are wrong")
         \cup Say(ev.fix # SelectSeq(ev.cls.names, LAMBDA n : ev.cls.static[n][ev.nom \o "_extendable"] # "True"), "fixed components are wrong")
         \cup Say("com" \in DOMAIN ev /\ ev.com # SelectSeq(ev.cls.names, LAMBDA n : ev.cls.static[n]["committable"] = "True"), "committable components are wrong")
    [] OTHER -> {"unknown query"}
=============================================================================
