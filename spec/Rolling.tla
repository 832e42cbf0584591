------------------------------ MODULE Rolling ------------------------------
(***************************************************************************)
(* Rolling-horizon optimisation (C20): the decisions for n snapshots are   *)
(* made window by window.  A window of the requested length starts         *)
(* horizon - overlap snapshots after the previous one; what was decided    *)
(* before its first snapshot is history it has to continue, what the       *)
(* previous window decided from there on is decided again.                 *)
(*   ev.n, ev.horizon, ev.overlap                                          *)
(*   ev.out       "ok" or "refused"                                        *)
(*   ev.windows   the snapshots (positions) of the solved windows, in order*)
(*   ev.wins      per window an observation for Dispatch!SolutionFailures: *)
(*                the case which starts from the state left before it, and *)
(*                candidate decisions with the verdict of its model        *)
(*   ev.missing   results without a value                                  *)
(*   ev.whole, ev.cs, ev.x   all windows solved; the case over all         *)
(*                snapshots and the final results                          *)
(***************************************************************************)
EXTENDS Dispatch
Refused(h, o) == h <= o
Begin(k, h, o) == (k - 1) * (h - o)
WindowCount(n, h, o) == (n + h - o - 1) \div (h - o)
Window(k, n, h, o) == [i \in 1..(IF Begin(k, h, o) + h < n THEN h ELSE n - Begin(k, h, o)) |-> Begin(k, h, o) + i]
Windows(n, h, o) == [k \in 1..WindowCount(n, h, o) |-> Window(k, n, h, o)]

RollingFails(ev) ==
  IF Refused(ev.horizon, ev.overlap) THEN FailIf(ev.out # "refused", "a horizon which is not longer than the overlap is accepted")
  ELSE FailIf(ev.out # "ok", "the rolling-horizon optimisation fails: " \o ev.out)
  \cup (IF ev.out # "ok" THEN {} ELSE
        FailIf(ev.windows # Windows(ev.n, ev.horizon, ev.overlap), "the windows are not those requested")
        \cup UNION {{"window " \o s : s \in SolutionFailures(w)
                      \cup UNION {CandidateFails(w.cs, w.cands[i]) : i \in DOMAIN w.cands}} : w \in Range(ev.wins)}
        \cup FailIf(ev.missing # << >>, "snapshots without a result")
        \cup (IF ev.whole THEN {"across windows: " \o s : s \in Violated(ev.cs, ev.x)} ELSE {}))
=============================================================================
