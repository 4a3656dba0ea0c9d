------------------------------ MODULE Patterns ------------------------------
(***************************************************************************)
(* Small knot vectors, enumerated.                                         *)
(***************************************************************************)
EXTENDS Script

Eighth(n) == Q(n, 8)

RECURSIVE Digits(_)
Digits(n) == IF n = 0 THEN <<>> ELSE Append(Digits(n \div 10), n % 10)

(* Sorted sequences of at most n values from vals (numbers of eighths),    *)
(* none more than p times.                                                 *)
RECURSIVE SeqsUpTo(_, _)
SeqsUpTo(vals, n) ==
    IF n = 0 THEN {<<>>}
    ELSE LET shorter == SeqsUpTo(vals, n - 1)
         IN  shorter \cup
             {Append(s, v) : s \in {t \in shorter : Len(t) = n - 1}, v \in vals}
Sortedly(s) == \A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1]
Within(s, p) == \A i \in 1..Len(s) : Cardinality({j \in 1..Len(s) : s[j] = s[i]}) <= p
InteriorSeqs(vals, n, p) == {s \in SeqsUpTo(vals, n) : Sortedly(s) /\ Within(s, p)}

MakeKnotSeq(p, s) ==
    TLCEval([i \in 1..(p + 1) |-> Zero] \o [i \in 1..Len(s) |-> Eighth(s[i])] \o [i \in 1..(p + 1) |-> One])

(* Parameters of interest: all break points and some others.               *)
ParamsOf(U) == LET b == Breaks(U)
               IN  AsSeq({b[i] : i \in 1..Len(b)} \cup {Eighth(n) : n \in {1, 3, 6}} \cup {Q(1, 3), Q(99999, 100000)})
=============================================================================
