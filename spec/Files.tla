------------------------------- MODULE Files --------------------------------
(***************************************************************************)
(* Export and import (C04). The target of an export is a store whose whole *)
(* content is replaced: what an import reads back is the network exported  *)
(* last, whatever was exported to the same target before.                  *)
(***************************************************************************)
EXTENDS Networks

(* the target as a state machine; the events observe one step of it *)
Export(target, net) == net
Import(target) == target

(* derived bookkeeping (sub-networks) is not stored but determined again;   *)
(* columns of empty tables are not stored, and neither are weightings of   *)
(* periods in which there are no snapshots                                 *)
Forgotten(net) ==
  [net EXCEPT !.ipw = << >>,
     !.pw = [k \in {"objective", "years"} |->
        IF k \notin DOMAIN net.pw THEN << >> ELSE
        LET at == {i \in DOMAIN net.ipw : net.ipw[i] \in Rng(net.periods) /\ net.pw[k][i] # "nan"}
        IN [p \in {net.ipw[i] : i \in at} |-> net.pw[k][IndexOf(net.ipw, p)]]],
     !.comps = [cls \in DOMAIN net.comps \ {"SubNetwork"} |->
     [net.comps[cls] EXCEPT !.cols = IF DOMAIN net.comps[cls].static = {} THEN {} ELSE @,
        !.static = [n \in DOMAIN @ |-> Without(@[n], {"sub_network", "r_pu", "x_pu", "g_pu", "b_pu"})]]]]
(* further ports which no link uses are not stored *)
UnusedPorts(c) == {k \in PortBus \cup PortEff : \A n \in DOMAIN c.static : k \in DOMAIN c.static[n] => c.static[n][k] = Default("Link", k)}
NoUnused(net) ==
  IF "Link" \notin DOMAIN net.comps THEN net ELSE
  [net EXCEPT !.comps["Link"].cols = Rng(@) \ UnusedPorts(net.comps["Link"]),
              !.comps["Link"].static = [n \in DOMAIN @ |-> Without(@[n], UnusedPorts(net.comps["Link"]))]]
(* a series equal to the static value, both at the default, need not be stored *)
Needless(c, cls, k, n) ==
  /\ Known(cls, k) /\ \A t \in DOMAIN c.series[k][n] : c.series[k][n][t] = VDefault(cls, k)
  /\ n \in DOMAIN c.static /\ (k \in DOMAIN c.static[n] => c.static[n][k] = VDefault(cls, k))
NoNeedless(net) ==
  [net EXCEPT !.comps = [cls \in DOMAIN net.comps |-> [net.comps[cls] EXCEPT !.series =
     [k \in DOMAIN @ |-> Without(@[k], {n \in DOMAIN @[k] : Needless(net.comps[cls], cls, k, n)})]]]]
(* an empty text is a missing text; the truth values of a custom column    *)
(* with gaps may be numbers                                                *)
Cell(fmt, cls, k, v) ==
  IF v = "'" THEN Default(cls, k)
  ELSE IF ~Known(cls, k) /\ v \in {"True", "False"} THEN (IF v = "True" THEN "1" ELSE "0")
  ELSE v
Cells(fmt, net) ==
  [net EXCEPT !.comps = [cls \in DOMAIN net.comps |-> [net.comps[cls] EXCEPT !.static =
     [n \in DOMAIN @ |-> [k \in DOMAIN @[n] |-> Cell(fmt, cls, k, @[n][k])]]]]]
Stored(fmt, net) == NoNeedless(NoResults(Forgotten(NoUnused(Cells(fmt, net)))))

RoundTrip(ev) ==
  (IF ev.out = "refused" THEN {ev.format \o ": a valid export or import is refused"}
   ELSE {ev.format \o ": " \o d : d \in Diff(Stored(ev.format, LooseNet(Import(Export("anything", ev.start)), ev.result)), Stored(ev.format, ev.result))}
        \cup {ev.format \o ": type of " \o t : t \in Rng(ev.types)} \cup Coherent(ev.result))
  \cup Unchanged(ev.start, ev.startAfter, "exporting changes the network")
=============================================================================
