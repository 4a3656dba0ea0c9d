------------------------------ MODULE MCKnots -------------------------------
(***************************************************************************)
(* Knot vectors under editing: every sequence of insertions and reversals  *)
(* up to MaxDepth from every small vector, with every query in every       *)
(* state.                                                                  *)
(***************************************************************************)
EXTENDS Patterns

CONSTANTS Degrees, MaxInterior, KnotVals,
          Free,        \* also vectors that are not clamped
          Moves,       \* BOOLEAN
          Queries,     \* BOOLEAN
          MaxTimes, MaxDepth

VARIABLES start, hist
mcvars == <<heap, disk, memo, start, hist>>

(* Vectors that are valid to construct but not clamped: any non-decreasing *)
(* list from 0 or above to 1.                                              *)
FreeVectors ==
    {TLCEval([i \in 1..Len(s) |-> Eighth(s[i])] \o <<One>>)
       : s \in {t \in SeqsUpTo({0, 8} \cup KnotVals, 4) : Len(t) > 0 /\ Sortedly(t)}}
Starts == UNION {{MakeKnotSeq(p, s) : s \in InteriorSeqs(KnotVals, MaxInterior, IMax(1, p))} : p \in Degrees}
          \cup (IF Free THEN FreeVectors ELSE {})

U == heap["k"].v
Edits(V) ==
    {[cmd |-> "kins k " \o RShow(Eighth(v)) \o " " \o Str(n), U |-> InsertTimes(V, Eighth(v), n), v |-> Eighth(v), n |-> n]
       : v \in KnotVals, n \in 0..MaxTimes}
    \cup {[cmd |-> "krev k", U |-> ReverseKnots(V), v |-> Zero, n |-> -1]}

Init == \E V \in Starts :
          /\ heap = ("k" :> [k |-> "kv", v |-> V]) /\ disk = <<>> /\ memo = <<>>
          /\ start = V /\ hist = <<KnotsS("k", V)>>
Next == /\ Moves /\ Len(hist) <= MaxDepth
        /\ \E m \in Edits(U) :
             /\ IF m.n >= 0 THEN KInsert("k", m.v, m.n, InsertIndex(U, m.v), m.U) ELSE KReverse("k", m.U)
             /\ hist' = Append(hist, m.cmd) /\ UNCHANGED start
Spec == Init /\ [][Next]_mcvars
View == <<heap, start>>

---------------------------------------------------------------------------
(* Valid after any history, whenever it was valid before.                  *)
StaysValid == ValidKnots(start) => ValidKnots(U)
StaysSorted == ValidKnots(start) => Sorted(U) /\ REq(U[Len(U)], One)
(* Nothing is lost: every starting knot, possibly mirrored, is there as    *)
(* often as before.                                                        *)
Complete ==
    LET V == U  R == ReverseKnots(V)
    IN  \/ \A i \in 1..Len(start) : Mult(V, start[i]) >= Mult(start, start[i])
        \/ \A i \in 1..Len(start) : Mult(R, start[i]) >= Mult(start, start[i])
ReverseTwice == ReverseKnots(ReverseKnots(U)) = U

(* The definitions of the queries agree with each other.                   *)
QueriesAgree ==
    LET V == U  ps == Pairs(V)
    IN  /\ \A i \in 1..Len(ps) : ps[i][3] = Mult(V, ps[i][2]) /\ REq(K(V, ps[i][1]), ps[i][2])
        /\ \A i \in 1..(Len(ps) - 1) : RLt(ps[i][2], ps[i + 1][2]) /\ ps[i + 1][1] = ps[i][1] + ps[i][3]
        /\ ValidKnots(V) => \A v \in KnotVals :
             LET x == Eighth(v)  q == PairSpan(V, x)  k == Span(V, x)
             IN  /\ REq(q.l[2], K(V, k)) /\ REq(q.r[2], K(V, k + 1))
                 /\ RLe(K(V, k), x) /\ RLt(x, K(V, k + 1))
                 /\ k = q.l[1] + q.l[3] - 1

---------------------------------------------------------------------------
QueryCmds ==
    LET V == U
        b == Breaks(V)
        xs == AsSeq({b[i] : i \in 1..Len(b)} \cup {Eighth(n) : n \in {1, 3, 7}} \cup {Q(1, 3), Q(99999, 100000), Q(1, 100000)}
                    \cup {x \in {RAdd(b[i], Q(1, 10000000)) : i \in 1..Len(b)} : RLe(x, One)})
        lead == Leading(V, Zero)
        clamped == lead > 0 /\ Leading(ReverseSeq(V), One) = lead /\ Len(V) >= 2 * lead
        Per(i) == LET x == RShow(xs[i])
                  IN  (IF clamped THEN <<"kspan k " \o Str(lead - 1) \o " " \o x>> ELSE <<>>)
                      \o (IF REq(V[1], Zero) /\ Len(b) > 1 THEN <<"kpspan k " \o x>> ELSE <<>>)
                      \o <<"kmult k " \o x>>
        RECURSIVE All(_)
        All(i) == IF i > Len(xs) THEN <<>> ELSE Per(i) \o All(i + 1)
    IN  <<"kpairs k", "kflags k", "kdeg k">> \o All(1)
Emit == Behaviour(hist \o (IF Queries THEN QueryCmds ELSE <<>>))
=============================================================================
