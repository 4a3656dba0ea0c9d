------------------------------ MODULE MCAlign -------------------------------
(***************************************************************************)
(* Aligning parameters: every orientation of a surface (which axis each    *)
(* parameter follows, in which direction), every request, repeatedly.      *)
(***************************************************************************)
EXTENDS Patterns

CONSTANTS Shapes_,     \* numbers 1..4: degrees, knots and net sizes, below
          Skews,       \* 0: parallelogram, 1: skewed, 2: bent corners
          MaxDepth

VARIABLES start, hist
mcvars == <<heap, disk, memo, start, hist>>

DegU(n) == CASE n = 1 -> 1 [] n = 2 -> 2 [] n = 3 -> 1 [] n = 4 -> 2
DegV(n) == CASE n = 1 -> 1 [] n = 2 -> 1 [] n = 3 -> 3 [] n = 4 -> 2
IntU(n) == CASE n = 1 -> <<>> [] n = 2 -> <<1, 6>> [] n = 3 -> <<2>> [] n = 4 -> <<3, 3>>
IntV(n) == CASE n = 1 -> <<5>> [] n = 2 -> <<>> [] n = 3 -> <<1>> [] n = 4 -> <<2, 7>>

(* An edge: 20 along axis a with sign s, a little along the others.        *)
EdgeVec(a, s, skew, t) == [e \in 1..3 |-> IF e = a THEN 20 * s ELSE IF skew = 0 THEN 0 ELSE (((e + t) % 3) - 1) * 4]
Oriented(n, a, sa, b, sb, skew) ==
    LET pu == DegU(n)  pv == DegV(n)
        U == MakeKnotSeq(pu, IntU(n))  V == MakeKnotSeq(pv, IntV(n))
        nu == Len(U) - pu - 1  nv == Len(V) - pv - 1
        eu == EdgeVec(a, sa, skew, 1)  ev == EdgeVec(b, sb, skew, 2)
        Bump(i, j, e) == IF i \in {0, nu - 1} /\ j \in {0, nv - 1}
                         THEN IF skew = 2 /\ i > 0 /\ j > 0 THEN Q(e + 1, 1) ELSE Zero
                         ELSE Q(((i * 7 + j * 3 + e) % 5) - 2, 2)
        P(i, j) == [e \in 1..3 |-> RAdd(RAdd(Q(e, 4), Bump(i, j, e)), RAdd(Q(eu[e] * i, nu - 1), Q(ev[e] * j, nv - 1)))]
                   \o <<Q(1 + ((i + 2 * j) % 3), 2)>>
    IN  [pu |-> pu, pv |-> pv, U |-> U, V |-> V, nu |-> nu, nv |-> nv,
         P |-> TLCEval([m \in 1..(nu * nv) |-> P((m - 1) % nu, (m - 1) \div nu)])]

s == heap["a"].v
Requests == {<<x, y>> : x \in 1..3, y \in 1..3}
Cmd(d, r) == "salign " \o d \o " a " \o Str(r[1]) \o " " \o Str(r[2])

Init == \E n \in Shapes_, a \in 1..3, b \in 1..3, sa \in {-1, 1}, sb \in {-1, 1}, k \in Skews :
          /\ a # b
          /\ LET o == Oriented(n, a, sa, b, sb, k)
             IN  /\ heap = ("a" :> [k |-> "surf", v |-> o]) /\ disk = <<>> /\ memo = <<>>
                 /\ start = o /\ hist = <<SurfS("a", o)>>
Next == /\ Len(hist) <= MaxDepth
        /\ \E r \in Requests :
             /\ Alignable(s, r[1], r[2])
             /\ SAlign("a", "a", r[1], r[2], AlignExact(s, r[1], r[2]))
             /\ hist' = Append(hist, Cmd("a", r)) /\ UNCHANGED start
Spec == Init /\ [][Next]_mcvars
View == <<heap, start>>

---------------------------------------------------------------------------
WellFormed == WellFormedSurface(s)
(* All eight orientations are distinct and form one orbit.                 *)
Orbit == \E m \in 1..8 : Symmetries(start)[m] = s
(* Whatever can be aligned is; aligning again changes nothing.             *)
Idempotent == \A r \in Requests : Alignable(s, r[1], r[2]) =>
    LET o == AlignExact(s, r[1], r[2]) IN Aligned(o, r[1], r[2]) /\ AlignExact(o, r[1], r[2]) = o
(* The result does not depend on the orientation one starts from.          *)
Canonical == \A r \in Requests : Alignable(start, r[1], r[2]) => AlignExact(s, r[1], r[2]) = AlignExact(start, r[1], r[2])
(* Every starting surface can be aligned with its own two axes.            *)
Possible == \E r \in Requests : Alignable(s, r[1], r[2])

Emit == Behaviour(hist \o (IF Len(hist) <= MaxDepth THEN AsSeq({Cmd("z", r) : r \in Requests}) ELSE <<>>))
=============================================================================
