------------------------------ MODULE Container ------------------------------
(***************************************************************************)
(* The network as a data structure (C01-C03, C06).  A state is a record    *)
(*   name, snaps     name; sequence of snapshot labels                     *)
(*   w               snapshot weightings: column -> sequence               *)
(*   periods, ipw, pw  investment periods; index and columns of their      *)
(*                   weightings                                            *)
(*   comps           class -> [names, cols, static, series]: names in      *)
(*                   order, static columns, name -> attribute -> datum,    *)
(*                   attribute -> name -> sequence over the snapshots      *)
(*   bad             incoherences found while reading the tables (must be  *)
(*                   empty)                                                *)
(* A datum is a string: a number, 'text, True/False or nan.                *)
(* Apply(net, op) is the state after op, Refused(net, op) says when the    *)
(* call must be refused and leave the network as it is.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, AttrTable

Rng(s) == {s[i] : i \in DOMAIN s}
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Upd(f, g) == [k \in DOMAIN f \cup DOMAIN g |-> IF k \in DOMAIN g THEN g[k] ELSE f[k]]
Only(f, S) == [k \in DOMAIN f \cap S |-> f[k]]
Without(f, S) == [k \in DOMAIN f \ S |-> f[k]]
NoDup(s) == Cardinality(Rng(s)) = Len(s)
IndexOf(s, e) == CHOOSE i \in DOMAIN s : s[i] = e
Classes_(net) == DOMAIN net.comps

Ports == {"2", "3", "4"}
PortBus == {"bus" \o p : p \in Ports}
PortEff == {"efficiency" \o p : p \in Ports}
Varying(cls) == DOMAIN VaryingDefaults[cls] \cup (IF cls = "Link" THEN PortEff \cup {"p" \o p : p \in Ports} ELSE {})
VDefault(cls, a) == IF a \in DOMAIN VaryingDefaults[cls] THEN VaryingDefaults[cls][a]
                    ELSE IF cls = "Link" /\ a \in PortEff THEN "1" ELSE "0"
Known(cls, a) == a \in DOMAIN StaticDefaults[cls] \/ (cls = "Link" /\ a \in PortBus \cup PortEff)
Default(cls, a) == IF a \in DOMAIN StaticDefaults[cls] THEN StaticDefaults[cls][a]
                   ELSE IF cls = "Link" /\ a \in PortBus THEN "'"
                   ELSE IF cls = "Link" /\ a \in PortEff THEN "1"
                   ELSE "nan"
Ref(net, cls) == net.comps[cls]

(* ------------------------------------------------------------------ add *)
(* An argument is [k, form, v, idx, cols]:                                 *)
(*   "scalar"   v a datum                                                  *)
(*   "seq"      v a sequence (list or array)                               *)
(*   "labelled" v a sequence with labels idx                               *)
(*   "frame"    v a sequence of rows, labels idx and cols                  *)
(*   "array"    v a sequence of rows                                       *)
(*   "dict"     a dictionary                                               *)
IsSeries(op, a) == \/ a.form \in {"frame", "array"}
                   \/ op.single /\ a.form \in {"seq", "labelled"}
BadArg(net, op, a) ==
  \/ a.form = "dict"
  \/ a.form = "seq" /\ IF op.single THEN Len(a.v) # Len(net.snaps) ELSE Len(a.v) # 1 /\ Len(a.v) # Len(op.names)
  \/ a.form = "labelled" /\ IF op.single THEN a.idx # net.snaps ELSE a.idx # op.names
  \/ a.form = "frame" /\ (a.idx # net.snaps \/ a.cols # op.names)
  \/ a.form = "array" /\ (Len(a.v) # Len(net.snaps) \/ \E r \in Rng(a.v) : Len(r) # Len(op.names))
StaticValue(op, a, i) ==       \* datum of the i-th name
  IF a.form = "scalar" THEN a.v ELSE IF Len(a.v) = 1 THEN a.v[1] ELSE a.v[i]
SeriesValue(net, op, a, i) ==  \* sequence over the snapshots of the i-th name
  IF a.form \in {"frame", "array"} THEN [t \in DOMAIN net.snaps |-> a.v[t][i]] ELSE a.v

AddRefused(net, op) ==
  \/ op.cls \notin Classes_(net)
  \/ ~NoDup(op.names)
  \/ \E a \in Rng(op.args) : BadArg(net, op, a)

(* a link with a new port gives every link that port *)
PortCols(op) == IF op.cls # "Link" THEN {}
                ELSE UNION {{"bus" \o p, "efficiency" \o p} : p \in {q \in Ports : \E a \in Rng(op.args) : a.k = "bus" \o q}}
AddApply(net, op) ==
  LET c == Ref(net, op.cls)
      st == {a \in Rng(op.args) : ~IsSeries(op, a)}
      se == {a \in Rng(op.args) : IsSeries(op, a)}
      taken == IF op.overwrite THEN {i \in DOMAIN op.names : TRUE}
               ELSE {i \in DOMAIN op.names : op.names[i] \notin Rng(c.names)}
      cols == Rng(c.cols) \cup {a.k : a \in st} \cup PortCols(op) \cup DOMAIN StaticDefaults[op.cls]
      given(i, k) == IF \E a \in st : a.k = k THEN StaticValue(op, CHOOSE a \in st : a.k = k, i) ELSE "nan"
      newrow(i) == [k \in cols |-> IF given(i, k) = "nan" THEN Default(op.cls, k) ELSE given(i, k)]
      oldrow(r) == [k \in cols |-> IF k \in DOMAIN r THEN r[k] ELSE Default(op.cls, k)]
      newnames == {op.names[i] : i \in taken}
      static == [n \in DOMAIN c.static \cup newnames |->
                   IF n \in newnames THEN newrow(IndexOf(op.names, n)) ELSE oldrow(c.static[n])]
      kept == [k \in DOMAIN c.series |-> Without(c.series[k], newnames)]
      attrs == DOMAIN kept \cup {a.k : a \in se}
      newser(k) == IF \E a \in se : a.k = k
                   THEN LET a == CHOOSE a \in se : a.k = k IN [n \in newnames |-> SeriesValue(net, op, a, IndexOf(op.names, n))]
                   ELSE << >>
      series == [k \in attrs |-> Upd(Get(kept, k, << >>), newser(k))]
  IN [net EXCEPT !.comps[op.cls] = [c EXCEPT !.static = static, !.series = series,
                                             !.cols = cols, !.names = DOMAIN static]]

(* --------------------------------------------------------------- remove *)
RemoveRefused(net, op) == op.cls \notin Classes_(net) \/ \E n \in Rng(op.names) : n \notin Rng(Ref(net, op.cls).names)
RemoveApply(net, op) ==
  LET c == Ref(net, op.cls)
  IN [net EXCEPT !.comps[op.cls] = [c EXCEPT !.static = Without(c.static, Rng(op.names)),
                                             !.names = Rng(c.names) \ Rng(op.names),
                                             !.series = [k \in DOMAIN c.series |-> Without(c.series[k], Rng(op.names))]]]

(* --------------------------------------------------------------- rename *)
NewName(op, n) == Get(op.map, n, n)
Refers(cls, k) ==
  CASE cls = "Bus" -> k \in {"bus", "bus0", "bus1", "slack_bus"} \cup PortBus
    [] cls = "Carrier" -> k = "carrier"
    [] cls = "Generator" -> k = "generator"
    [] cls = "SubNetwork" -> k = "sub_network"
    [] OTHER -> FALSE
RenameRefused(net, op) ==
  LET ns == Rng(Ref(net, op.cls).names) IN \E a, b \in ns : a # b /\ NewName(op, a) = NewName(op, b)
OldName(net, op, m) == CHOOSE n \in Rng(Ref(net, op.cls).names) : NewName(op, n) = m
RenameApply(net, op) ==
  LET ns == {NewName(op, n) : n \in Rng(Ref(net, op.cls).names)}
      rows(d, f) == [m \in {NewName(op, n) : n \in DOMAIN f} |-> f[OldName(net, op, m)]]
      subst(f) == [k \in DOMAIN f |-> IF Refers(op.cls, k) /\ \E n \in DOMAIN op.map : "'" \o n = f[k]
                                      THEN "'" \o op.map[CHOOSE n \in DOMAIN op.map : "'" \o n = f[k]] ELSE f[k]]
      one(cls) == LET c == Ref(net, cls)
                      s1 == IF cls = op.cls THEN rows(c, c.static) ELSE c.static
                      e1 == IF cls = op.cls THEN [k \in DOMAIN c.series |-> rows(c, c.series[k])] ELSE c.series
                  IN [c EXCEPT !.static = [n \in DOMAIN s1 |-> subst(s1[n])], !.series = e1,
                               !.names = IF cls = op.cls THEN ns ELSE c.names]
  IN [net EXCEPT !.comps = [cls \in DOMAIN net.comps |-> one(cls)]]

(* -------------------------------------------------------- set_snapshots *)
(* op.snaps: new labels; op.multi: whether they are (period, timestep);    *)
(* op.steps: the timestep of each label; op.default: weight of a new one;  *)
(* op.gaps (when weightings shall follow from times): hours to the next    *)
(* snapshot; the last one is taken to last as long as the one before       *)
IsMulti(net) == net.periods # << >>
SnapRefused(net, op) == op.snaps = << >> \/ op.timezone
Reindex(net, op, s, d) ==
  [t \in DOMAIN op.snaps |->
     IF op.multi /\ ~IsMulti(net)
     THEN (IF op.steps[t] \in Rng(net.snaps) THEN s[IndexOf(net.snaps, op.steps[t])] ELSE d)
     ELSE IF op.multi = IsMulti(net) /\ op.snaps[t] \in Rng(net.snaps) THEN s[IndexOf(net.snaps, op.snaps[t])] ELSE d]
SnapApply(net, op) ==
  LET one(cls) == LET c == Ref(net, cls)
                  IN [c EXCEPT !.series = [k \in DOMAIN c.series |-> [n \in DOMAIN c.series[k] |->
                         Reindex(net, op, c.series[k][n], IF k \in Varying(cls) THEN VDefault(cls, k) ELSE "nan")]]]
  IN [net EXCEPT !.snaps = op.snaps, !.periods = op.periods,
                 !.w = [k \in DOMAIN net.w |->
                          IF "gaps" \in DOMAIN op /\ op.gaps # << >> THEN [t \in DOMAIN op.snaps |-> op.gaps[IF t <= Len(op.gaps) THEN t ELSE Len(op.gaps)]]
                          ELSE IF "gaps" \in DOMAIN op THEN [t \in DOMAIN op.snaps |-> op.default]
                          ELSE Reindex(net, [op EXCEPT !.steps = [t \in DOMAIN op.snaps |-> ""]], net.w[k], op.default)],
                 !.comps = [cls \in DOMAIN net.comps |-> one(cls)]]

(* ----------------------------------------------- set_investment_periods *)
(* op.ps: requested periods as labels; op.valid: integers, strictly increasing; *)
(* op.cells: for the flat case the new labels <<period|timestep>>          *)
PeriodsRefused(net, op) ==
  /\ op.ps # << >>
  /\ \/ ~op.valid
     \/ IsMulti(net) /\ Rng(op.ps) # Rng(net.periods)
PeriodsApply(net, op) ==
  IF op.ps = << >> THEN net ELSE
  LET pers == IF IsMulti(net) THEN net.periods ELSE op.ps
      rep(s) == [j \in 1..(Len(op.ps) * Len(net.snaps)) |-> s[((j - 1) % Len(net.snaps)) + 1]]
      rep1(s) == IF IsMulti(net) THEN s ELSE rep(s)
      one(cls) == LET c == Ref(net, cls)
                  IN [c EXCEPT !.series = [k \in DOMAIN c.series |-> [n \in DOMAIN c.series[k] |-> rep1(c.series[k][n])]]]
      pw(s) == [j \in DOMAIN pers |-> IF pers[j] \in Rng(net.ipw) THEN s[IndexOf(net.ipw, pers[j])] ELSE "1"]
      old(k) == Get(net.pw, k, << >>)
  IN [net EXCEPT !.snaps = IF IsMulti(net) THEN net.snaps
                           ELSE [j \in 1..(Len(op.ps) * Len(net.snaps)) |->
                                   op.ps[((j - 1) \div Len(net.snaps)) + 1] \o "|" \o net.snaps[((j - 1) % Len(net.snaps)) + 1]],
                 !.periods = pers, !.ipw = pers,
                 !.w = [k \in DOMAIN net.w |-> rep1(net.w[k])],
                 !.pw = [k \in {"objective", "years"} |-> pw(old(k))],
                 !.comps = [cls \in DOMAIN net.comps |-> one(cls)]]

(* ------------------------------------------------------------ weightings *)
WeightsRefused(net, op) == op.idx # net.snaps
WeightsApply(net, op) == [net EXCEPT !.w = [k \in DOMAIN net.w |-> IF op.column = "all" \/ op.column = k THEN op.v ELSE net.w[k]]]
PWeightsRefused(net, op) == op.idx # net.periods
PWeightsApply(net, op) == [net EXCEPT !.pw = [k \in {"objective", "years"} |-> IF op.column = "all" \/ op.column = k THEN op.v ELSE net.pw[k]],
                                      !.ipw = net.periods]

(* ------------------------------------------------------------ direct edits *)
SetApply(net, op) == [net EXCEPT !.comps[op.cls].static[op.name][op.k] = op.v]
SetSerApply(net, op) == [net EXCEPT !.comps[op.cls].series =
    Upd(net.comps[op.cls].series, [k \in {op.k} |-> Upd(Get(net.comps[op.cls].series, op.k, << >>), [n \in {op.name} |-> op.v])])]

Refused(net, op) ==
  CASE op.kind = "add" -> AddRefused(net, op)
    [] op.kind = "remove" -> RemoveRefused(net, op)
    [] op.kind = "rename" -> RenameRefused(net, op)
    [] op.kind = "snapshots" -> SnapRefused(net, op)
    [] op.kind = "periods" -> PeriodsRefused(net, op)
    [] op.kind = "weights" -> WeightsRefused(net, op)
    [] op.kind = "period weights" -> PWeightsRefused(net, op)
    [] OTHER -> FALSE
Apply(net, op) ==
  CASE op.kind = "add" -> AddApply(net, op)
    [] op.kind = "remove" -> RemoveApply(net, op)
    [] op.kind = "rename" -> RenameApply(net, op)
    [] op.kind = "snapshots" -> SnapApply(net, op)
    [] op.kind = "periods" -> PeriodsApply(net, op)
    [] op.kind = "weights" -> WeightsApply(net, op)
    [] op.kind = "period weights" -> PWeightsApply(net, op)
    [] op.kind = "set" -> SetApply(net, op)
    [] op.kind = "set series" -> SetSerApply(net, op)
    [] op.kind = "read" -> net

(* ------------------------------------------------------------ comparison *)
Say(b, s) == IF b THEN {s} ELSE {}
(* empty tables of a series are the same as no table *)
NonEmpty(series) == {k \in DOMAIN series : DOMAIN series[k] # {}}
SetOf(x) == IF DOMAIN x = 1..Len(x) THEN {x[i] : i \in DOMAIN x} ELSE {}
ClassDiff(cls, x, y) ==
  LET xn == DOMAIN x.static  yn == DOMAIN y.static
      both == xn \cap yn
      ser == NonEmpty(x.series) \cap NonEmpty(y.series)
  IN Say(xn # yn, cls \o " components differ")
     \cup UNION {UNION {Say(k \notin DOMAIN y.static[n] \/ k \notin DOMAIN x.static[n], cls \o " has a column " \o k \o " on one side only")
                        : k \in (DOMAIN x.static[n] \cup DOMAIN y.static[n]) \ (DOMAIN x.static[n] \cap DOMAIN y.static[n])}
                 \cup UNION {Say(x.static[n][k] # y.static[n][k], cls \o " " \o k \o " differs")
                             : k \in DOMAIN x.static[n] \cap DOMAIN y.static[n]} : n \in both}
     \cup UNION {Say(TRUE, cls \o " series " \o k \o " on one side only") : k \in (NonEmpty(x.series) \cup NonEmpty(y.series)) \ ser}
     \cup UNION {Say(DOMAIN x.series[k] # DOMAIN y.series[k], cls \o " series " \o k \o " of different components")
                 \cup UNION {Say(x.series[k][n] # y.series[k][n], cls \o " series " \o k \o " differs")
                             : n \in DOMAIN x.series[k] \cap DOMAIN y.series[k]} : k \in ser}
WDiff(x, y) ==
  Say(x.snaps # y.snaps, "snapshots differ")
  \cup Say(x.periods # y.periods, "investment periods differ")
  \cup Say(x.w # y.w, "snapshot weightings differ")
PDiff(x, y) == Say(x.ipw # y.ipw \/ x.pw # y.pw, "investment period weightings differ")
Diff(x, y) ==
  UNION {ClassDiff(cls, x.comps[cls], y.comps[cls]) : cls \in DOMAIN x.comps \cap DOMAIN y.comps}
  \cup Say(DOMAIN x.comps # DOMAIN y.comps, "component classes differ")
  \cup WDiff(x, y) \cup PDiff(x, y) \cup Say(x.name # y.name, "name differs")
  \cup Say(x.meta # y.meta, "meta data differ") \cup Say(x.crs # y.crs, "coordinate reference systems differ")

(* every reading of the network must be coherent *)
Coherent(net) ==
  Rng(net.bad)
  \cup UNION {LET c == net.comps[cls]
                  ns == Rng(c.names)
              IN Say(DOMAIN c.static # ns, cls \o " names and rows differ")
                 \cup UNION {Say(~(DOMAIN c.series[k] \subseteq ns), cls \o " series " \o k \o " has columns of components that do not exist") : k \in DOMAIN c.series}
              : cls \in DOMAIN net.comps}

(* ---------------------------------------------------------------- traces *)
(* A history: ev.start, then steps [op, out, post]; unspecified parts of a *)
(* step's result are taken as observed.                                    *)
(* custom series, when the snapshots change between one and two levels;    *)
(* custom columns of a table of which every row is replaced;               *)
(* weightings, when the snapshots get a second level                       *)
LooseSeries(cls, want, got) ==
  [want EXCEPT !.series = [k \in DOMAIN want.series |->
      IF k \in Varying(cls) \/ k \notin DOMAIN got.series \/ DOMAIN got.series[k] # DOMAIN want.series[k] THEN want.series[k] ELSE got.series[k]]]
LooseColumns(op, pre, want, got) ==
  IF Rng(pre.names) = {} \/ (op.overwrite /\ Rng(pre.names) \subseteq Rng(op.names))
  THEN LET drop == {k \in Rng(pre.cols) : ~Known(op.cls, k) /\ ~\E a \in Rng(op.args) : a.k = k} \ Rng(got.cols)
       IN [want EXCEPT !.static = [n \in DOMAIN want.static |-> Without(want.static[n], drop)]]
  ELSE want
Loose(op, pre, want, got) ==
  CASE op.kind = "snapshots" ->
         LET w1 == IF op.loosew THEN [want EXCEPT !.w = got.w] ELSE want
         IN IF op.multi = IsMulti(pre) THEN w1
            ELSE [w1 EXCEPT !.comps = [cls \in DOMAIN want.comps |->
                    IF cls \in DOMAIN got.comps THEN LooseSeries(cls, want.comps[cls], got.comps[cls]) ELSE want.comps[cls]]]
    [] op.kind = "add" -> [want EXCEPT !.comps[op.cls] = LooseColumns(op, pre.comps[op.cls], @, got.comps[op.cls])]
    [] OTHER -> want
StepFails(pre, st) ==
  IF Refused(pre, st.op)
  THEN Say(st.out # "refused", "an invalid call (" \o st.op.kind \o ") is accepted")
       \cup {"a refused call changes the network: " \o d : d \in Diff(pre, st.post)}
  ELSE IF st.out = "refused" THEN {"a valid call (" \o st.op.kind \o ") is refused"}
  ELSE {st.op.kind \o ": " \o d : d \in Diff(Loose(st.op, pre, Apply(pre, st.op), st.post), st.post)}
       \cup (IF "ret" \in DOMAIN st /\ st.op.kind = "add" THEN Say(st.ret # st.op.names, "add does not return the names") ELSE {})
HistoryFails(ev) ==
  UNION {StepFails(IF i = 1 THEN ev.start ELSE ev.steps[i - 1].post, ev.steps[i])
         \cup Coherent(ev.steps[i].post) : i \in DOMAIN ev.steps}
=============================================================================
