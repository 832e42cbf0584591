--------------------------- MODULE RollingDesign ---------------------------
(* Any behaviour of a system with rules between neighbouring snapshots can  *)
(* be decided window by window: for all lengths, horizons and overlaps and  *)
(* all decisions of the windows, the table never breaks a rule across a     *)
(* boundary and is complete at the end.  The state of the system is a level *)
(* and a mode with age; rules: levels move by at most one, a mode is kept   *)
(* at least two snapshots.                                                  *)
EXTENDS Rolling
CONSTANTS MaxN, Variant
VARIABLES n, h, o, done, table
vars == <<n, h, o, done, table>>
Values == [lev : 0..1, age : 1..2, on : BOOLEAN]
Start == [lev |-> 0, age |-> 2, on |-> FALSE]
Follows(a, b) == /\ b.lev - a.lev \in {-1, 0, 1} /\ (b.on /\ ~a.on => b.lev >= a.lev)
                 /\ IF a.on = b.on THEN b.age = (IF a.age = 2 THEN 2 ELSE a.age + 1) ELSE a.age = 2 /\ b.age = 1
Undone == [lev |-> 9, age |-> 9, on |-> FALSE]
Before(t, i) == IF i = 1 THEN Start ELSE t[i - 1]
(* the states a window may pass through, one snapshot after the other       *)
RECURSIVE Extend(_, _, _)
Extend(t, i, last) == IF i > last THEN {t} ELSE UNION {Extend([t EXCEPT ![i] = v], i + 1, last) : v \in {v \in Values : Follows(Before(t, i), v)}}
Init == /\ n \in 1..MaxN /\ h \in 1..MaxN /\ o \in 0..(MaxN - 1) /\ ~Refused(h, o)
        /\ done = 0 /\ table = [i \in 1..n |-> Undone]
Next == /\ done < WindowCount(n, h, o)
        /\ LET w == Window(done + 1, n, h, o)
               seen == CASE Variant = "right" -> table
                         [] Variant = "last decided" -> IF w[1] = 1 THEN table ELSE [table EXCEPT ![w[1] - 1] = table[Begin(done, h, o) + Len(Window(done, n, h, o))]]
           IN \E t \in Extend(seen, w[1], w[Len(w)]) : table' = [i \in 1..n |-> IF i < w[1] THEN table[i] ELSE t[i]]
        /\ done' = done + 1 /\ UNCHANGED <<n, h, o>>
Spec == Init /\ [][Next]_vars
Decided(i) == table[i] # Undone
Order == \A i \in 2..n : Decided(i) => Decided(i - 1)
Rules == \A i \in 1..n : Decided(i) => Follows(Before(table, i), table[i])
Complete == done = WindowCount(n, h, o) => \A i \in 1..n : Decided(i)
Shape == \A k \in 1..WindowCount(n, h, o) : LET w == Window(k, n, h, o) IN
           /\ w # << >> /\ w[1] >= 1 /\ w[Len(w)] <= n /\ Len(w) <= h
           /\ k > 1 => w[1] = Window(k - 1, n, h, o)[1] + (h - o)
           /\ k < WindowCount(n, h, o) /\ w[Len(w)] < n => Len(w) = h
=============================================================================
