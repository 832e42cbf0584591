------------------------------- MODULE Options -------------------------------
(***************************************************************************)
(* The options of PyPSA as a state machine (C28).                          *)
(*   vals   function from the names of the options to their values         *)
(*   stack  the open contexts, each a function from the names it has set   *)
(*          to the values they had when it was entered                     *)
(* Operations: get, set, reset (of a category, "" for all), enter (pairs   *)
(* of names and values), odd (a context with a name but no value), exit.   *)
(* The same operators are explored by TLC, generate behaviours for the     *)
(* real code, and judge what the real code did (OptionsFails).             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Rng(s) == {s[i] : i \in DOMAIN s}
(* the first occurrence of a name in a context saves its value             *)
EnterAll(vals, pairs) ==
  LET RECURSIVE go(_, _)
      go(v, i) == IF i > Len(pairs) THEN v ELSE go([v EXCEPT ![pairs[i][1]] = pairs[i][2]], i + 1)
  IN go(vals, 1)
Known(vals, pairs) == \A i \in DOMAIN pairs : pairs[i][1] \in DOMAIN vals

Apply(st, op, defaults, under(_, _)) ==
  LET refuse == [vals |-> st.vals, stack |-> st.stack, out |-> "refused"]
      ok(v, s) == [vals |-> v, stack |-> s, out |-> "ok"]
  IN CASE op.k = "set" -> IF op.path \in DOMAIN st.vals THEN ok([st.vals EXCEPT ![op.path] = op.v], st.stack) ELSE refuse
       [] op.k = "get" -> IF op.path \in DOMAIN st.vals THEN ok(st.vals, st.stack) ELSE refuse
       [] op.k = "reset" -> ok([p \in DOMAIN st.vals |-> IF under(p, op.path) THEN defaults[p] ELSE st.vals[p]], st.stack)
       [] op.k = "enter" -> IF Known(st.vals, op.pairs)
            THEN ok(EnterAll(st.vals, op.pairs), Append(st.stack, [p \in {op.pairs[i][1] : i \in DOMAIN op.pairs} |-> st.vals[p]]))
            ELSE refuse
       [] op.k = "odd" -> refuse
       [] op.k = "exit" -> ok(st.stack[Len(st.stack)] @@ st.vals, SubSeq(st.stack, 1, Len(st.stack) - 1))

(* ------------------------------------------------- judging the real code *)
(* ev.names: the options; ev.defaults; ev.start: values before the first   *)
(* step; ev.groups: the options below each category;                       *)
(* ev.steps: [op, out, vals (by attribute), got (by get_option), read]     *)
RECURSIVE StepsFails(_, _, _)
StepsFails(ev, st, i) ==
  IF i > Len(ev.steps) THEN {}
  ELSE LET s == ev.steps[i]
           nx == Apply(st, s.op, ev.defaults, LAMBDA p, c : p \in Rng(ev.groups[c]))
           bad == (IF s.out # nx.out THEN {s.op.k \o " is " \o s.out} ELSE {})
                  \cup (IF \E p \in DOMAIN st.vals : s.vals[p] # nx.vals[p] THEN {"wrong values after " \o s.op.k} ELSE {})
                  \cup (IF s.vals # s.got THEN {"the styles of access disagree after " \o s.op.k} ELSE {})
                  \cup (IF s.op.k = "get" /\ s.out = "ok" /\ nx.out = "ok" /\ s.read # nx.vals[s.op.path] THEN {"get returns another value"} ELSE {})
                  \cup (IF s.op.k = "exit" /\ s.op.exc /\ ~s.raised THEN {"an exception is swallowed by a context"} ELSE {})
       IN IF bad # {} THEN bad ELSE StepsFails(ev, [vals |-> nx.vals, stack |-> nx.stack], i + 1)
OptionsFails(ev) ==
  (IF \E p \in Rng(ev.names) : ev.start[p] # ev.defaults[p] THEN {"an option does not start with its default"} ELSE {})
  \cup StepsFails(ev, [vals |-> ev.defaults, stack |-> << >>], 1)
=============================================================================
