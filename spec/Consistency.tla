----------------------------- MODULE Consistency -----------------------------
(***************************************************************************)
(* What the consistency check has to report (C27).  An event observes one  *)
(* network and what n.consistency_check said about it:                     *)
(*   buses, carriers   names                                               *)
(*   comps   records [cls, name, ports: seq of [attr, bus, optional],       *)
(*           carrier ("" none), f: function from the numeric attributes to  *)
(*           values, b: function from flags to booleans]                    *)
(*   limits  [cls, name, lo, hi]: per unit limits over the snapshots        *)
(*   series  [cls, attr, aligned, cols]: input series                       *)
(*   cells   [cls, attr, missing]: attributes which have a default          *)
(*   types   [cls, attr, is, should]                                        *)
(*   gcperiods, periods (<< >> when the snapshots have none), multi         *)
(*   shapes  [name, cls, idx, known: names of the class]                    *)
(*   said    function from the kinds to whether a strict check refuses      *)
(*   quiet   no warning without strict; named: names in the warnings        *)
(***************************************************************************)
EXTENDS Num, TLC
Eq0(q) == ~IsNaN(q) /\ Eq(Mul(q, "1e15"), 0)
Lt0(a, b) == ~IsNaN(a) /\ ~IsNaN(b) /\ ~Leq(b, a)
Tell(bad, what) == IF bad THEN {what} ELSE {}
Rng(s) == {s[i] : i \in DOMAIN s}
Passive == {"Line", "Transformer"}
Has(r, k) == k \in DOMAIN r

BadBus(ev, c) == \E p \in Rng(c.ports) : p.bus \notin Rng(ev.buses) /\ ~(p.optional /\ p.bus = "")
BadCarrier(ev, c) == c.carrier # "" /\ c.carrier \notin Rng(ev.carriers)
Free(ev) == Rng(ev.buses) \ UNION {{p.bus : p \in Rng(c.ports)} : c \in Rng(ev.comps)}
ZeroZ(c) == c.cls \in Passive /\ (Eq0(c.f.x) \/ Eq0(c.f.r))
ZeroS(c) == c.cls = "Transformer" /\ Eq0(c.f.s_nom)
CapWrong(c) == Has(c.f, "nom_max") /\ ~IsNaN(c.f.nom_max) /\ ~IsNaN(c.f.nom_min) /\ Lt0(c.f.nom_max, c.f.nom_min)
CapMissing(c) == Has(c.f, "nom_max") /\ c.b.extendable /\ (IsNaN(c.f.nom_max) \/ IsNaN(c.f.nom_min))
Unlimited(q) == IsNaN(q) \/ IsInf(q)
LimitWrong(l) == \E t \in DOMAIN l.lo : Unlimited(l.lo[t]) \/ Unlimited(l.hi[t]) \/ Lt0(l.hi[t], l.lo[t])
Both(c) == c.cls \in {"Generator", "Link"} /\ c.b.committable /\ c.b.extendable
GenWrong(c) == c.cls = "Generator" /\ ((c.b.committable /\ Lt0(0, c.f.up_time_before) /\ Lt0(0, c.f.down_time_before)) \/ Lt0(c.f.e_sum_max, c.f.e_sum_min))
NamesOf(ev, cls) == {c.name : c \in {c \in Rng(ev.comps) : c.cls = cls}}
SeriesWrong(ev, s) == ~s.aligned \/ ~(Rng(s.cols) \subseteq NamesOf(ev, s.cls))

Offenders(ev, kind) ==
  LET C == Rng(ev.comps) pick(T(_)) == {c.name : c \in {c \in C : T(c)}} IN
  CASE kind = "unknown_buses" -> pick(LAMBDA c : BadBus(ev, c))
    [] kind = "disconnected_buses" -> Free(ev)
    [] kind = "unknown_carriers" -> pick(LAMBDA c : BadCarrier(ev, c))
    [] kind = "zero_impedances" -> pick(ZeroZ)
    [] kind = "zero_s_nom" -> pick(ZeroS)
    [] kind = "static_power_attrs" -> pick(CapWrong)
    [] kind = "time_series_power_attrs" -> {l.name : l \in {l \in Rng(ev.limits) : LimitWrong(l)}}
    [] kind = "assets" -> pick(Both)
    [] kind = "generators" -> pick(GenWrong)
    [] kind = "shapes" -> {s.name : s \in {s \in Rng(ev.shapes) : s.idx \notin Rng(s.known)}}
    [] OTHER -> {}
Present(ev, kind) ==
  CASE kind = "time_series" -> \E s \in Rng(ev.series) : SeriesWrong(ev, s)
    [] kind = "static_power_attrs" -> \E c \in Rng(ev.comps) : CapWrong(c) \/ CapMissing(c)
    [] kind = "nans_for_component_default_attrs" -> \E c \in Rng(ev.cells) : c.missing
    [] kind = "dtypes" -> ev.dtypes /\ \E t \in Rng(ev.types) : t.is # t.should
    [] kind = "investment_periods" -> IF ev.multi THEN ~(Rng(ev.gcperiods) \subseteq Rng(ev.periods)) ELSE ev.gcperiods # << >>
    [] OTHER -> Offenders(ev, kind) # {}
Kinds == {"unknown_buses", "unknown_carriers", "time_series", "static_power_attrs", "time_series_power_attrs", "nans_for_component_default_attrs",
          "zero_impedances", "zero_s_nom", "assets", "generators", "disconnected_buses", "investment_periods", "shapes", "dtypes"}
(* the limits cannot be evaluated over snapshots for which there are no values *)
Skipped(ev, kind) == kind = "time_series_power_attrs" /\ \E s \in Rng(ev.series) : ~s.aligned

ConsistencyFails(ev) ==
  Tell(ev.out # "ok", "the check raises without being strict: " \o ev.out)
  \cup UNION { IF Skipped(ev, k) THEN {}
               ELSE IF ev.said[k] \notin {"silent", "refused"} THEN {"the strict check for " \o k \o " fails otherwise"}
               ELSE Tell(Present(ev, k) /\ ev.said[k] = "silent", "not reported: " \o k) \cup Tell(~Present(ev, k) /\ ev.said[k] = "refused", "reported without reason: " \o k) : k \in DOMAIN ev.said }
  \cup Tell(ev.quiet /\ \E k \in Kinds : ~Skipped(ev, k) /\ Present(ev, k), "no warning although there is a defect")
  \cup Tell(~ev.quiet /\ \A k \in Kinds : ~Skipped(ev, k) /\ ~Present(ev, k), "a warning although there is no defect")
  \cup Tell(ev.out = "ok" /\ \E k \in Kinds : ~Skipped(ev, k) /\ ~(Offenders(ev, k) \subseteq Rng(ev.named)), "a defective component is not named")
  \cup Tell((ev.all = "refused") # \E k \in Kinds : ~Skipped(ev, k) /\ Present(ev, k), "strict for all kinds")
  \cup Tell(ev.odd # "refused", "an unknown kind is accepted")
  \cup Tell(ev.changed # << >>, "the check modifies the network")
  \cup Tell(ev.plot # (IF (\E c \in Rng(ev.comps) : BadCarrier(ev, c)) \/ ev.colourless THEN "refused" ELSE "silent"), "the check before plotting")
=============================================================================
