------------------------------ MODULE UCDesign ------------------------------
(***************************************************************************)
(* Design-level check of unit commitment: for every unit and every on/off  *)
(* schedule up to length T, the automaton of Units.tla accepts exactly the *)
(* schedules that satisfy the window inequalities of the mixed-integer     *)
(* formulation (a start within the last min_up_time snapshots implies on,  *)
(* a stop within the last min_down_time snapshots implies off, plus the    *)
(* obligations inherited from before the horizon), and the automaton never *)
(* leaves its type.                                                        *)
(***************************************************************************)
EXTENDS Units, TLC
CONSTANTS T, MaxMin, MaxBefore
VARIABLES u, s, sched, ok

UnitsOf == { [min_up_time |-> a, min_down_time |-> b, up_time_before |-> c, down_time_before |-> d] :
             a \in 0..MaxMin, b \in 0..MaxMin, c \in 0..MaxBefore, d \in 0..MaxBefore }
DInit == /\ u \in {v \in UnitsOf : v.up_time_before = 0 \/ v.down_time_before = 0}
         /\ s = UCInit(u)
         /\ sched = << >>
         /\ ok = TRUE
DNext == /\ Len(sched) < T
         /\ \E b \in {0, 1} :
              /\ sched' = Append(sched, b)
              /\ LET on == b = 1
                 IN /\ ok' = (ok /\ (on = s.on \/ (IF on THEN MayStart(u, s) ELSE MayStop(u, s))))
                    /\ s' = UCNext(s, on)
         /\ UNCHANGED u
DSpec == DInit /\ [][DNext]_<<u, s, sched, ok>>

(* ---- the mixed-integer formulation *)
On0 == IF u.up_time_before > 0 THEN 1 ELSE 0
Prev(k) == IF k = 1 THEN On0 ELSE sched[k - 1]
Starts(k) == IF sched[k] > Prev(k) THEN 1 ELSE 0
Stops(k) == IF sched[k] < Prev(k) THEN 1 ELSE 0
WinSum(F(_), k, len) == Sum({j \in 1..k : j > k - len}, F)
MustStayUp == IF u.up_time_before > 0 /\ u.up_time_before < u.min_up_time THEN u.min_up_time - u.up_time_before ELSE 0
MustStayDown == IF u.up_time_before = 0 /\ u.down_time_before > 0 /\ u.down_time_before < u.min_down_time
                THEN u.min_down_time - u.down_time_before ELSE 0
Mip == \A k \in 1..Len(sched) :
         /\ WinSum(Starts, k, u.min_up_time) <= sched[k]
         /\ WinSum(Stops, k, u.min_down_time) <= 1 - sched[k]
         /\ k <= MustStayUp => sched[k] = 1
         /\ k <= MustStayDown => sched[k] = 0
         /\ Starts(k) - Stops(k) = sched[k] - Prev(k)
Equivalent == ok <=> Mip
RunAgrees == (UCRun(u, UCInit(u), sched, 1, Len(sched)) = {}) <=> ok
TypeOK == s.on \in BOOLEAN /\ s.age \in Nat /\ s = UCAfter(UCInit(u), sched, 1, Len(sched))
(* splitting the horizon anywhere gives the same verdict (rolling horizon) *)
Splits == \A k \in 0..Len(sched) :
            LET mid == UCAfter(UCInit(u), sched, 1, k)
                head == UCRun(u, UCInit(u), SubSeq(sched, 1, k), 1, k)
                tail == UCRun(u, mid, SubSeq(sched, k + 1, Len(sched)), 1, Len(sched) - k)
            IN (head = {} /\ tail = {}) <=> ok
=============================================================================
