----------------------------- MODULE MCKnotMake -----------------------------
(***************************************************************************)
(* Building knot vectors: every list up to MaxLen over an alphabet with    *)
(* valid and invalid values, every list of pairs, and the uniform builder. *)
(***************************************************************************)
EXTENDS Patterns

CONSTANTS MaxLen, MaxPairs, MaxTimes, MaxDegree, MaxExtra

Nan == [num |-> FALSE, v |-> Zero]
N(x) == [num |-> TRUE, v |-> x]
Letters == <<"-1/8", "0", "1/4", "3/4", "1", "9/8", "nan">>
Value == <<N(Q(-1, 8)), N(Zero), N(Q(1, 4)), N(Q(3, 4)), N(One), N(Q(9, 8)), Nan>>
All == 1..7
Few == {2, 3, 5, 7}

VARIABLES what
mcvars == <<heap, disk, memo, what>>

Lists == SeqsUpTo(All, MaxLen)
PairLists == LET one == {<<a, n>> : a \in Few, n \in 0..MaxTimes} IN SeqsUpTo(one, MaxPairs)
Init == /\ NurbsInit
        /\ \/ \E s \in Lists : what = [k |-> "list", s |-> s]
           \/ \E s \in PairLists : what = [k |-> "pairs", s |-> s]
           \/ \E p \in 0..MaxDegree : \E e \in 0..MaxExtra : what = [k |-> "uni", s |-> <<p, 2 * (p + 1) + e>>]

Given == IF what.k = "list" THEN TLCEval([i \in 1..Len(what.s) |-> Value[what.s[i]]])
         ELSE Flatten(TLCEval([i \in 1..Len(what.s) |-> <<Value[what.s[i][1]], what.s[i][2]>>]))
Outcome(g) == IF ListValid(g) THEN [ok |-> TRUE, U |-> ListValues(g)] ELSE [ok |-> FALSE, why |-> "invalid_argument"]
Next == /\ heap = <<>> /\ UNCHANGED what
        /\ IF what.k = "uni" THEN KUniform("k", what.s[1], what.s[2], UniformKnots(what.s[1], what.s[2]))
           ELSE KConstruct("k", Given, Outcome(Given))
Spec == Init /\ [][Next]_mcvars
View == <<heap, what>>

(* What was built is sorted, ends in 1 and is not empty.                   *)
Built == heap # <<>> =>
    LET U == heap["k"].v
    IN  Len(U) > 0 /\ Sorted(U) /\ REq(U[Len(U)], One) /\ RLe(Zero, U[1])
(* The uniform vector: clamped, and all spans equally long.                *)
Uniform == (heap # <<>> /\ what.k = "uni") =>
    LET U == heap["k"].v  p == what.s[1]
    IN  /\ Len(U) = what.s[2] /\ (ValidKnots(U) \/ p = 0)
        /\ Leading(U, Zero) = p + 1 /\ Leading(ReverseSeq(U), One) = p + 1
        /\ Cardinality(SpanLengths(U)) = 1

PairS(q) == Letters[q[1]] \o " " \o Str(q[2])
Cmd == CASE what.k = "list" -> "kvlist k " \o Str(Len(what.s)) \o
                               (IF what.s = <<>> THEN "" ELSE " " \o Join([i \in 1..Len(what.s) |-> Letters[what.s[i]]], " "))
         [] what.k = "pairs" -> "kvpairs k " \o Str(Len(what.s)) \o
                               (IF what.s = <<>> THEN "" ELSE " " \o Join([i \in 1..Len(what.s) |-> PairS(what.s[i])], " "))
         [] what.k = "uni" -> "kvuni k " \o Str(what.s[1]) \o " " \o Str(what.s[2])
Emit == heap = <<>> => Behaviour(<<Cmd>>)
=============================================================================
