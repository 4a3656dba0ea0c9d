-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact rational numbers.                                                 *)
(*                                                                         *)
(* A rational is represented here by the normalised pair <<n, d>> with     *)
(* d > 0 and gcd(n, d) = 1.  TLC's integers have 32 bits, so for real runs *)
(* the operators below are overridden by vq.RatOps (Java, BigInteger); the *)
(* definitions in this module are the meaning of those overrides, and      *)
(* MCRat.tla is run with and without the overrides to compare the two.     *)
(***************************************************************************)
EXTENDS Integers, Sequences

LOCAL Abs(n) == IF n < 0 THEN -n ELSE n

RECURSIVE Gcd(_, _)
LOCAL Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

LOCAL Norm(n, d) ==
    LET g == Gcd(Abs(n), Abs(d))
        s == IF d < 0 THEN -1 ELSE 1
    IN  IF n = 0 THEN <<0, 1>> ELSE <<(s * n) \div g, (s * d) \div g>>

Q(n, d)    == Norm(n, d)
RAdd(x, y) == Norm(x[1] * y[2] + y[1] * x[2], x[2] * y[2])
RSub(x, y) == Norm(x[1] * y[2] - y[1] * x[2], x[2] * y[2])
RMul(x, y) == Norm(x[1] * y[1], x[2] * y[2])
RDiv(x, y) == Norm(x[1] * y[2], x[2] * y[1])
RNeg(x)    == <<-x[1], x[2]>>
RAbs(x)    == <<Abs(x[1]), x[2]>>
RLe(x, y)  == x[1] * y[2] <= y[1] * x[2]
RLt(x, y)  == x[1] * y[2] < y[1] * x[2]
REq(x, y)  == x = y
RMax(x, y) == IF RLe(y, x) THEN x ELSE y
RMin(x, y) == IF RLe(x, y) THEN x ELSE y

RECURSIVE SumFrom(_, _)
LOCAL SumFrom(s, i) == IF i > Len(s) THEN Q(0, 1) ELSE RAdd(s[i], SumFrom(s, i + 1))

(* The sum of a sequence, the scalar product of two sequences of the same  *)
(* length, and the linear combination of equally long tuples.              *)
RSum(s)    == SumFrom(s, 1)
RDot(c, s) == RSum([i \in 1..Len(s) |-> RMul(c[i], s[i])])
RComb(c, P) == IF Len(P) = 0 THEN <<>>
               ELSE [j \in 1..Len(P[1]) |-> RSum([i \in 1..Len(P) |-> RMul(c[i], P[i][j])])]

(* The largest absolute value in a sequence (0 for the empty one).         *)
RECURSIVE MaxAbsFrom(_, _)
LOCAL MaxAbsFrom(s, i) == IF i > Len(s) THEN Q(0, 1) ELSE RMax(RAbs(s[i]), MaxAbsFrom(s, i + 1))
RMaxAbs(s) == MaxAbsFrom(s, 1)

(* |x - y| <= tol, for numbers and, component by component, for tuples.    *)
RNear(x, y, tol) == RLe(RAbs(RSub(x, y)), tol)
RNearAll(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : RNear(a[i], b[i], tol)

(* Used for error bounds only: a number with few digits that is at least   *)
(* x and not much more.  (The override rounds up to 32 significant bits.)  *)
RUp(x) == x

(* Text and numbers.  These exist only as overrides: RParse reads "n",     *)
(* "n/d", a decimal number or a C99 hexadecimal floating-point constant,   *)
(* RIsNum says whether RParse would accept, RIsInt whether it is a decimal *)
(* integer of any length, RShow writes "n" or "n/d".                       *)
RParse(str) == CHOOSE q \in {} : TRUE
RIsNum(str) == CHOOSE q \in {} : TRUE
RIsInt(str) == CHOOSE q \in {} : TRUE
RShow(q)    == CHOOSE str \in {} : TRUE
(* RIsNums(s): s is a sequence of strings RParse accepts;                  *)
(* RParses(s) is the sequence of their values.                             *)
RIsNums(s) == \A i \in 1..Len(s) : RIsNum(s[i])
RParses(s) == [i \in 1..Len(s) |-> RParse(s[i])]
=============================================================================
