------------------------------- MODULE Knots --------------------------------
(***************************************************************************)
(* Knot vectors as a data type: construction, queries, editing.            *)
(***************************************************************************)
EXTENDS Shapes

---------------------------------------------------------------------------
(* Construction.  The given values may be anything, so they are records    *)
(* [num |-> BOOLEAN, v |-> rational] where num is FALSE for NaN and        *)
(* infinities (v is then meaningless).                                     *)

ListValid(vs) ==
    /\ Len(vs) > 0
    /\ \A i \in 1..Len(vs) : vs[i].num
    /\ RLe(Zero, vs[1].v)
    /\ \A i \in 1..(Len(vs) - 1) : RLe(vs[i].v, vs[i + 1].v)
    /\ REq(vs[Len(vs)].v, One)
ListValues(vs) == TLCEval([i \in 1..Len(vs) |-> vs[i].v])

(* A list of pairs <<value record, multiplicity>> stands for a list.       *)
RECURSIVE Flatten(_)
Flatten(ps) == IF ps = <<>> THEN <<>>
               ELSE [i \in 1..IMax(0, Head(ps)[2]) |-> Head(ps)[1]] \o Flatten(Tail(ps))

(* Outcome of a construction: [ok |-> TRUE, U |-> knots] or                 *)
(* [ok |-> FALSE, why |-> "invalid_argument"].                             *)
ConstructOK(vs, out) ==
    IF ListValid(vs) THEN out.ok /\ out.U = ListValues(vs)
    ELSE ~out.ok /\ out.why = "invalid_argument"

---------------------------------------------------------------------------
(* Queries.                                                                *)

SpanIndexOK(U, p, x, k) == k = Span(U, x)

(* Pairs <<index of first occurrence, value, multiplicity>>.               *)
Pairs(U) == LET d == Distinct(U)
            IN  TLCEval([i \in 1..Len(d) |-> <<d[i][1] - 1, d[i][2], Mult(U, d[i][2])>>])
PairsOK(U, res) == res = Pairs(U)

(* The distinct knots around x: the number (from 0) of the left one and    *)
(* the two pairs.                                                          *)
PairSpan(U, x) ==
    LET ps == Pairs(U)
        i == CHOOSE i \in 1..(Len(ps) - 1) :
               /\ RLe(ps[i][2], x)
               /\ i = Len(ps) - 1 \/ RLt(x, ps[i + 1][2])
    IN  [idx |-> i - 1, l |-> ps[i], r |-> ps[i + 1]]
PairSpanOK(U, x, res) == res = PairSpan(U, x)

Near6 == E(6)
Fuzz  == E(9)
CountWithin(U, x, d) == Cardinality({i \in 1..Len(U) : RLt(RAbs(RSub(U[i], x)), d)})
MultiplicityOK(U, x, res) ==
    /\ CountWithin(U, x, RSub(Near6, Fuzz)) <= res
    /\ res <= CountWithin(U, x, RAdd(Near6, Fuzz))

ValidKnots(U) == Len(U) >= 4 /\ REq(U[1], Zero) /\ REq(U[Len(U)], One) /\ Sorted(U)

RECURSIVE Leading(_, _)
Leading(U, x) == IF U = <<>> \/ ~REq(U[1], x) THEN 0 ELSE 1 + Leading(Tail(U), x)
IsClampedKnots(U) == Leading(U, Zero) > 0 /\ Leading(U, Zero) = Leading(ReverseSeq(U), One)

SpanLengths(U) == {RSub(U[i + 1], U[i]) : i \in {j \in 1..(Len(U) - 1) : RLt(U[j], U[j + 1])}}
UniformFlagOK(U, res) ==
    LET S == SpanLengths(U)
    IN  /\ (\A a \in S : \A b \in S : RLt(RAbs(RSub(a, b)), RSub(Near6, Fuzz))) => res
        /\ (\E a \in S : \E b \in S : RLt(RMul(Two, RAdd(Near6, Fuzz)), RAbs(RSub(a, b)))) => ~res

(* The degree: leading zeros minus one; all zeros is an error.             *)
DegreeOK(U, out) ==
    IF Leading(U, Zero) = Len(U) THEN ~out.ok /\ out.why = "out_of_range"
    ELSE out.ok /\ out.v = Leading(U, Zero) - 1

---------------------------------------------------------------------------
(* Editing.                                                                *)

InsertTimes(U, x, n) ==
    LET m == Cardinality({i \in 1..Len(U) : RLe(U[i], x)})
    IN  SubSeq(U, 1, m) \o [i \in 1..n |-> x] \o SubSeq(U, m + 1, Len(U))
InsertIndex(U, x) == Cardinality({i \in 1..Len(U) : RLe(U[i], x)}) - 1
KnotInsertOK(U, x, n, k, r) == k = InsertIndex(U, x) /\ r = InsertTimes(U, x, n)

TolReverse == RMul(Two, E(16))
KnotReverseOK(U, r) == Len(r) = Len(U) /\ RNearAll(r, ReverseKnots(U), TolReverse) /\ Sorted(r)
=============================================================================
