------------------------------- MODULE Assets -------------------------------
(***************************************************************************)
(* Assets, their attributes and their lifetime.  A case `cs` describes a   *)
(* network together with the optimisation settings:                        *)
(*   cs.T      number of snapshots of the network                          *)
(*   cs.per[t] investment period (year) of snapshot t, 0 when flat         *)
(*   cs.wo, cs.wg, cs.ws   objective / generators / stores weightings      *)
(*   cs.sel    the snapshots that are optimised, in order                  *)
(*   cs.multi  whether investment periods are optimised                    *)
(*   cs.py     sequence of [y |-> year, wo |-> .., wy |-> ..]              *)
(*   cs.gens, cs.loads, cs.sus, cs.stores, cs.links, cs.lines, cs.trafos   *)
(* An asset is a record of attributes with `ser`, the time series that     *)
(* override attributes.                                                    *)
(***************************************************************************)
EXTENDS Num

(* C05: a series overrides the static value. *)
A(c, a, t) == IF a \in DOMAIN c.ser THEN c.ser[a][t] ELSE c[a]

FailIf(b, msg) == IF b THEN {msg} ELSE {}
Range(f) == {f[i] : i \in DOMAIN f}
K(cs) == Len(cs.sel)
Steps(cs) == 1..Len(cs.sel)
T_(cs, k) == cs.sel[k]
Year(cs, k) == cs.per[cs.sel[k]]

(* C05: in service in year y: switched on, and built but not yet retired.  *)
InService(c, y) == /\ c.active
                   /\ Leq(c.build_year, y)
                   /\ Less(y, Add(c.build_year, c.lifetime))
ActiveInYear(cs, c, y) == IF cs.multi THEN InService(c, y) ELSE c.active
On(cs, c, k) == ActiveInYear(cs, c, Year(cs, k))

(* The investment periods that occur in the optimised snapshots. *)
YearsOf(cs) == {Year(cs, k) : k \in Steps(cs)}
PeriodIdx(cs) == {i \in DOMAIN cs.py : cs.py[i].y \in YearsOf(cs)}
PeriodObj(cs, y) == IF cs.multi THEN (CHOOSE p \in Range(cs.py) : p.y = y).wo ELSE 1
PeriodYears(cs, y) == IF cs.multi THEN (CHOOSE p \in Range(cs.py) : p.y = y).wy ELSE 1

(* Capacity in force: a decision for extendable assets, the given value    *)
(* otherwise.  x.cap[class] maps asset ids to decisions.                   *)
Cap(x, cls, c, nom) == IF c[nom \o "_extendable"] THEN x.cap[cls][c.id] ELSE c[nom]
=============================================================================
