----------------------------- MODULE MCHelpers ------------------------------
(***************************************************************************)
(* Pascal's triangle, row after row, and the factorials; what Helpers says *)
(* agrees with it, and every entry is asked of the real functions.         *)
(***************************************************************************)
EXTENDS Script

CONSTANTS MaxN, MaxFact, Places
VARIABLES n, row, fact, sum
mcvars == <<heap, disk, memo, n, row, fact, sum>>

Init == NurbsInit /\ n = 0 /\ row = <<1>> /\ fact = 1 /\ sum = 1
Next == /\ n < MaxN /\ n' = n + 1
        /\ row' = [k \in 1..(n + 2) |-> (IF k = 1 THEN 0 ELSE row[k - 1]) + (IF k = n + 2 THEN 0 ELSE row[k])]
        /\ sum' = 2 * sum
        /\ fact' = IF n + 1 <= MaxFact THEN (n + 1) * fact ELSE fact
        /\ UNCHANGED <<heap, disk, memo>>
Spec == Init /\ [][Next]_mcvars
View == n

RECURSIVE Total(_, _)
Total(r, k) == IF k = 0 THEN 0 ELSE r[k] + Total(r, k - 1)
Pascal    == \A k \in 0..(n + 2) : Choose_(n, k) = IF k > n THEN 0 ELSE row[k + 1]
Rows      == Total(row, Len(row)) = sum /\ \A k \in 1..Len(row) : row[k] = row[Len(row) + 1 - k]
Factorials == n <= MaxFact => fact = Fact_(n)

Coord(i) == CASE i = 1 -> Q(-5, 2) [] i = 2 -> Zero [] i = 3 -> Q(1, 8) [] i = 4 -> One [] i = 5 -> Q(100, 1)
Point(a, b) == <<Coord(a), Coord(b), Coord(6 - a), Coord(2 + ((a + b) % 4))>>
Pair(a, b) == NumsS(Point(a, b)) \o " " \o NumsS(Point(b, a))
Emit ==
    /\ Behaviour([k \in 1..(n + 4) |-> "hbin " \o Str(n) \o " " \o Str(k - 1)] \o
                 (IF n <= MaxFact THEN <<"hfact " \o Str(n)>> ELSE <<>>))
    /\ n = 0 => Behaviour(AsSeq({"hhomo " \o NumsS(Point(a, b)) : a \in Places, b \in Places} \cup
                                {"hcart " \o NumsS([Point(a, b) EXCEPT ![4] = IF @ = Zero THEN One ELSE @]) : a \in Places, b \in Places} \cup
                                {"happ 1 " \o RShow(Coord(a)) \o " " \o RShow(Coord(b)) \o " " \o e
                                   : a \in Places, b \in Places, e \in {"1/8", "7/8", "1", "100", "-1"}} \cup
                                {"happ 4 " \o Pair(a, b) \o " " \o e : a \in Places, b \in Places, e \in {"1/8", "100", "-1"}}))
=============================================================================
