------------------------------- MODULE MCSave -------------------------------
(***************************************************************************)
(* Saving, step by step.  The object is written in pieces to a stream that *)
(* collects up to Buf units before it passes them on to a destination with *)
(* room for room units.  A destination that is full takes what fits and    *)
(* the stream fails.  A save that opened the destination itself closes it  *)
(* and looks at the outcome of that, too; a save to the caller's stream is *)
(* over when everything has been handed to the stream, and sees a failure  *)
(* only if the stream met it (Buf = 0 is a stream that passes on at once). *)
(* Every object, way of saving and amount of room is replayed.             *)
(***************************************************************************)
EXTENDS Patterns

CONSTANTS Objects,     \* subset of 1..4
          Lengths, Pieces, Bufs,
          Own,         \* {TRUE}: opens the destination itself, {FALSE}: a stream
          Eighths,     \* rooms replayed, in eighths of the file's size
          Offs         \* and this many bytes more or (numbers from 51 on) less
VARIABLES obj, own, size, room, piece, buf, given, held, stored, failed, at
mcvars == <<heap, disk, memo, obj, own, size, room, piece, buf, given, held, stored, failed, at>>
unchanged_ == <<heap, disk, memo, obj, own, size, room, piece, buf>>

Pt(i, j) == <<RInt((i * i * 7) % 11), Q((i * 5 + j) % 7, 2), Q((i + j * j * 3) % 5, 4), Q(1 + ((i + 2 * j) % 3), 2)>>
CurveOb(p, s) == LET U == MakeKnotSeq(p, s) IN [p |-> p, U |-> U, P |-> TLCEval([n \in 1..(Len(U) - p - 1) |-> Pt(n, 1)])]
SurfOb(p, q, s, t) ==
    LET U == MakeKnotSeq(p, s)  V == MakeKnotSeq(q, t)  nu == Len(U) - p - 1  nv == Len(V) - q - 1
    IN  [pu |-> p, pv |-> q, U |-> U, V |-> V, nu |-> nu, nv |-> nv, P |-> TLCEval([n \in 1..(nu * nv) |-> Pt(n % nu, n \div nu)])]
Thing(n) == CASE n = 1 -> [k |-> "curve", v |-> CurveOb(2, <<3>>)]
              [] n = 2 -> [k |-> "surf", v |-> SurfOb(1, 2, <<4>>, <<>>)]
              [] n = 3 -> [k |-> "curve", v |-> CurveOb(3, [i \in 1..120 |-> 1 + (i \div 20)])]
              [] n = 4 -> [k |-> "surf", v |-> SurfOb(3, 2, <<1, 2, 3, 4, 5, 6, 7>>, <<2, 4, 4, 6>>)]

Smaller(a, b) == IF a < b THEN a ELSE b
Init == /\ NurbsInit /\ obj \in Objects /\ own \in Own /\ size \in Lengths /\ room \in 0..(size + 2) /\ piece \in Pieces
        /\ buf \in (IF own THEN Bufs ELSE {0})
        /\ given = 0 /\ held = 0 /\ stored = 0 /\ failed = FALSE /\ at = "write"

(* The stream passes on what it holds.                                     *)
Pass(n) == /\ stored' = Smaller(stored + n, room)
           /\ failed' = (failed \/ stored + n > room)
Write == /\ at = "write" /\ given < size
         /\ LET n == Smaller(piece, size - given)
            IN  /\ given' = given + n
                /\ IF held + n > buf THEN Pass(held + n) /\ held' = 0
                   ELSE held' = held + n /\ UNCHANGED <<stored, failed>>
         /\ at' = (IF failed' THEN "threw" ELSE "write")
         /\ UNCHANGED unchanged_
Written == /\ at = "write" /\ given = size /\ ~failed
           /\ at' = (IF own THEN "close" ELSE "returned")
           /\ UNCHANGED <<heap, disk, memo, obj, own, size, room, piece, buf, given, held, stored, failed>>
Close == /\ at = "close"
         /\ Pass(held) /\ held' = 0
         /\ at' = (IF failed' THEN "threw" ELSE "returned")
         /\ UNCHANGED given /\ UNCHANGED unchanged_
Next == Write \/ Written \/ Close
Spec == Init /\ [][Next]_mcvars
View == <<obj, own, size, room, piece, buf, given, held, stored, failed, at>>

---------------------------------------------------------------------------
(* A save that returns has stored everything; one that threw could not.    *)
Nothing_lost == at = "returned" => stored = size
Thrown_rightly == at = "threw" => room < size
Decided == at \in {"returned", "threw"} => (at = "returned") = (room >= size)

---------------------------------------------------------------------------
(* The real sizes are known to the driver only; it is told fractions.      *)
Hows == IF own THEN <<"tf", "bf">> ELSE <<"ts", "bs", "tsx", "bsx">>
OffS(o) == IF o > 50 THEN "-" \o Str(o - 50) ELSE Str(o)
Try(how) ==
    <<"save f a " \o SubSeq(how, 1, 2)>> \o
    SetToSeq({"saveroom g f a " \o how \o " " \o Str(n) \o " 8 " \o OffS(o) : n \in Eighths, o \in Offs}) \o
    <<"saveroom g f a " \o how \o " 1 1 0", "load y g s">>
Nowhere == [i \in 1..3 |-> "savenowhere a " \o (IF i = 2 THEN "b" ELSE "t") \o " " \o <<"nodir", "isdir", "empty">>[i]] \o
           [i \in 1..4 |-> "loadnowhere z " \o Thing(obj).k \o " " \o <<"nodir", "isdir", "empty", "absent">>[i]]
FirstInit == at = "write" /\ given = 0 /\ room = 0 /\ (\A s \in Lengths : size <= s) /\ (\A p \in Pieces : piece <= p)
             /\ (own => \A b \in Bufs : buf <= b)
Emit == FirstInit =>
    LET o == Thing(obj)
        mk == <<IF o.k = "curve" THEN CurveS("a", o.v) ELSE SurfS("a", o.v)>>
    IN  /\ \A i \in 1..Len(Hows) : Behaviour(mk \o Try(Hows[i]))
        /\ own => Behaviour(mk \o Nowhere)
=============================================================================
