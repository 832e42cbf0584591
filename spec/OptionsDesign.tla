---------------------------- MODULE OptionsDesign ----------------------------
(* The state machine of Options over a small tree, explored exhaustively and *)
(* simulated to generate behaviours for the real code.                       *)
EXTENDS Options, Json
CONSTANTS MaxDepth, MaxLen, MaxVal, Emit
VARIABLES vals, stack, entry, hist
Names == {"a", "c.b", "c.d"}
Vals == 0..MaxVal
Default == [p \in Names |-> 0]
Under(p, c) == c = "" \/ (c = "c" /\ p \in {"c.b", "c.d"})
Bad == {"c", "z"}
PairSeqs == {<< >>} \cup {<< <<p, v>> >> : p \in Names \cup Bad, v \in Vals \ {0}}
            \cup {<< <<p, v>>, <<q, w>> >> : p \in Names, v \in Vals \ {0}, q \in Names \cup Bad, w \in Vals \ {1}}
Ops(d) == [k : {"set"}, path : Names \cup Bad, v : Vals] \cup [k : {"get"}, path : Names \cup Bad] \cup [k : {"reset"}, path : {"", "c"}]
          \cup (IF d < MaxDepth THEN [k : {"enter"}, pairs : PairSeqs] ELSE {}) \cup [k : {"odd"}, path : Names]
          \cup (IF d > 0 THEN [k : {"exit"}, exc : BOOLEAN] ELSE {})
Init == vals = Default /\ stack = << >> /\ entry = << >> /\ hist = << >>
Kinds(d) == {o.k : o \in Ops(d)}
Step(op) ==
  LET nx == Apply([vals |-> vals, stack |-> stack], op, Default, Under) IN
  /\ vals' = nx.vals /\ stack' = nx.stack
  \* what the context was entered with, to state what its end has to restore
  /\ entry' = IF op.k = "enter" /\ nx.out = "ok" THEN Append(entry, vals) ELSE IF op.k = "exit" THEN SubSeq(entry, 1, Len(entry) - 1) ELSE entry
  /\ hist' = IF Emit THEN Append(hist, op) ELSE <<op>>
Next == /\ Emit => Len(hist) < MaxLen
        \* the kind first, so that simulation does not drown in contexts
        /\ \E k \in Kinds(Len(stack)) : \E op \in {o \in Ops(Len(stack)) : o.k = k} : Step(op)
Spec == Init /\ [][Next]_<<vals, stack, entry, hist>>
Type == vals \in [Names -> Vals] /\ Len(stack) = Len(entry) /\ Len(stack) <= MaxDepth
(* a context which ends puts back what it has set; nothing else changes      *)
Restores == [][ (hist' # hist /\ hist'[Len(hist')].k = "exit") =>
                LET top == stack[Len(stack)] was == entry[Len(entry)] IN
                \A p \in Names : vals'[p] = IF p \in DOMAIN top THEN was[p] ELSE vals[p] ]_<<vals, stack, entry, hist>>
(* a refused operation has no effect                                          *)
RefusedIsNoop == [][ (hist' # hist /\ LET o == hist'[Len(hist')] IN o.k = "odd" \/ (o.k \in {"set", "get"} /\ o.path \in Bad)) => UNCHANGED <<vals, stack>> ]_<<vals, stack, entry, hist>>
ResetAll == [][ (hist' # hist /\ LET o == hist'[Len(hist')] IN o.k = "reset" /\ o.path = "") => vals' = Default ]_<<vals, stack, entry, hist>>
(* the exploration ignores the history                                        *)
View == <<vals, stack, entry>>
Out == (Emit /\ Len(hist) = MaxLen) => PrintT("@B@" \o ToJson(hist))
=============================================================================
