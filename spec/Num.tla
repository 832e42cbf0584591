-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Quantities (MW, MWh, p.u., EUR).  The definitions below are over the    *)
(* integers and are what the exhaustive design checks use.  When TLC runs  *)
(* with the override class spec/java/Num.java on its class path the same   *)
(* operators also accept decimal strings ("0.25", "Infinity", "NaN"),      *)
(* compare with a relative tolerance of 1e-5, and are used to judge        *)
(* observations of the implementation.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Add(x, y) == x + y
Sub(x, y) == x - y
Mul(x, y) == x * y
Div(x, y) == x \div y
NegQ(x) == -x
AbsQ(x) == IF x < 0 THEN -x ELSE x
Pow(x, y) == x ^ y
Sqrt(x) == CHOOSE r \in 0..x : r * r = x
Sin(x) == IF x = 0 THEN 0 ELSE CHOOSE r \in Int : TRUE    \* override only
Cos(x) == IF x = 0 THEN 1 ELSE CHOOSE r \in Int : TRUE    \* override only
Floor(x) == x
Ceil(x) == x
MinQ(x, y) == IF x < y THEN x ELSE y
MaxQ(x, y) == IF x > y THEN x ELSE y
Eq(x, y) == x = y
Leq(x, y) == x <= y
Less(x, y) == x < y
EqTol(x, y, t) == AbsQ(x - y) <= t
IsNaN(x) == FALSE
IsInf(x) == FALSE
IsInt(x) == TRUE
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = << >> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
RECURSIVE DotSeq(_, _)
DotSeq(s, u) == IF s = << >> THEN 0 ELSE Head(s) * Head(u) + DotSeq(Tail(s), Tail(u))
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0
                 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(f, S \ {x})
SumFcn(f) == SumOver(f, DOMAIN f)

(* Never overridden: derived forms. *)
Sum(S, Op(_)) == SumFcn([x \in S |-> Op(x)])
Prod3(x, y, z) == Mul(Mul(x, y), z)
Within(lo, x, hi) == Leq(lo, x) /\ Leq(x, hi)
=============================================================================
