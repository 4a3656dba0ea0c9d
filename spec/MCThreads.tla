----------------------------- MODULE MCThreads ------------------------------
(***************************************************************************)
(* Threads that call read-only operations on one shared object.  A call    *)
(* begins, reads the object at any number of moments, and ends; steps of   *)
(* different threads interleave freely.  What a call returns is a function *)
(* (left open) of what it read and of its arguments, so every call returns *)
(* what it would return alone exactly if no call ever writes the object.   *)
(* All interleavings are explored; every pair of calls is replayed with    *)
(* real threads, under ThreadSanitizer.                                    *)
(***************************************************************************)
EXTENDS Patterns

CONSTANTS Objects,     \* subset of 1..6
          Threads, Reads
VARIABLES obj, work, at, seen, done
mcvars == <<heap, disk, memo, obj, work, at, seen, done>>

Pt(i, j) == <<RInt((i * i * 7) % 11), Q((i * 5 + j) % 7, 2), Q((i + j * j * 3) % 5, 4), Q(1 + ((i + 2 * j) % 3), 2)>>
CurveOb(p, s) == LET U == MakeKnotSeq(p, s) IN [p |-> p, U |-> U, P |-> TLCEval([n \in 1..(Len(U) - p - 1) |-> Pt(n, 1)])]
SurfOb(p, q, s, t) ==
    LET U == MakeKnotSeq(p, s)  V == MakeKnotSeq(q, t)  nu == Len(U) - p - 1  nv == Len(V) - q - 1
    IN  [pu |-> p, pv |-> q, U |-> U, V |-> V, nu |-> nu, nv |-> nv, P |-> TLCEval([n \in 1..(nu * nv) |-> Pt(n % nu, n \div nu)])]
Thing(n) == CASE n = 1 -> [k |-> "curve", v |-> CurveOb(3, <<2, 4, 4, 5>>)]
              [] n = 2 -> [k |-> "curve", v |-> CurveOb(2, <<3>>)]
              [] n = 3 -> [k |-> "surf", v |-> SurfOb(2, 3, <<4>>, <<2, 5>>)]
              [] n = 4 -> [k |-> "surf", v |-> SurfOb(3, 1, <<>>, <<6>>)]
              [] n = 5 -> [k |-> "kv", v |-> MakeKnotSeq(3, <<1, 4, 4, 6>>)]
              [] n = 6 -> [k |-> "kv", v |-> MakeKnotSeq(1, <<4>>)]
Calls(k) ==
    CASE k = "curve" -> <<"eval a 1/3", "ders a 3/8 3", "der a 1 1", "rat a", "search a 1 2 1", "bsearch a 1 2 1", "ins a 2 3/8 1/8",
                          "ins1 a 7/8 2", "rem a 1/2 1", "elev a 1", "xform a 0 1 0 1 0 0 0 0 2", "bez a", "box a 1/4", "save a 0", "save a 1">>
      [] k = "surf" -> <<"eval a 1/3 1/5", "ders a 3/8 1/2 2 2", "der a 1 1 1 0", "rat a", "search a 1 2 1", "searchon a 1 2 1 0 1/4",
                         "bsearchon a 1 2 1 1 1/4", "insu a 1 3/8", "insv a 1 3/8", "remu a 1/2 1", "remv a 1/4 1", "elevu a 1", "elevv a 1",
                         "xform a 0 1 0 1 0 0 0 0 2", "save a 0", "save a 1">>
      [] k = "kv" -> <<"beval a P 1/3", "bders a P 1/2 2", "pairs a", "span a P 1/2", "mult a 1/2", "pspan a 1/3", "flags a">>
(* Basis and span queries need the degree.                                 *)
CallText(o, n) ==
    LET c == Calls(o.k)[n]
        p == IF o.k = "kv" THEN Mult(o.v, Zero) - 1 ELSE 0
    IN  IF o.k # "kv" THEN c
        ELSE CASE n = 1 -> "beval a " \o Str(p) \o " 1/3" [] n = 2 -> "bders a " \o Str(p) \o " 1/2 2"
               [] n = 4 -> "span a " \o Str(p) \o " 1/2" [] OTHER -> c

Init == /\ disk = <<>> /\ memo = <<>> /\ at = [t \in 1..Threads |-> 0] /\ seen = [t \in 1..Threads |-> <<>>] /\ done = [t \in 1..Threads |-> <<>>]
        /\ obj \in Objects /\ heap = ("a" :> Thing(obj))
        /\ work \in {w \in [1..Threads -> 1..Len(Calls(Thing(obj).k))] : \A t \in 1..(Threads - 1) : w[t] <= w[t + 1]}
Answer(call, operand) == [call |-> call, on |-> operand]
Alone(t) == Answer(work[t], Thing(obj))

Begin(t) == at[t] = 0 /\ at' = [at EXCEPT ![t] = 1] /\ UNCHANGED <<heap, disk, memo, obj, work, seen, done>>
Read(t)  == /\ at[t] \in 1..Reads /\ at' = [at EXCEPT ![t] = @ + 1]
            /\ seen' = [seen EXCEPT ![t] = Append(@, heap["a"])] /\ UNCHANGED <<heap, disk, memo, obj, work, done>>
End(t)   == /\ at[t] = Reads + 1 /\ at' = [at EXCEPT ![t] = Reads + 2]
            /\ done' = [done EXCEPT ![t] = <<Answer(work[t], seen[t][Len(seen[t])])>>]
            /\ UNCHANGED <<heap, disk, memo, obj, work, seen>>
Next == \E t \in 1..Threads : Begin(t) \/ Read(t) \/ End(t)
Spec == Init /\ [][Next]_mcvars
View == <<obj, work, at, done>>

---------------------------------------------------------------------------
(* Nobody writes; all moments of one call see the same object; every call  *)
(* returns what it returns alone.                                          *)
Unwritten == heap = ("a" :> Thing(obj))
OneView == \A t \in 1..Threads : \A i \in 1..Len(seen[t]) : seen[t][i] = Thing(obj)
AsAlone == \A t \in 1..Threads : done[t] # <<>> => done[t][1] = Alone(t)

Emit == (at = [t \in 1..Threads |-> 0]) =>
    LET o == Thing(obj)
    IN  Behaviour(<<CASE o.k = "curve" -> CurveS("a", o.v) [] o.k = "surf" -> SurfS("a", o.v) [] OTHER -> KnotsS("a", o.v),
                    "par 4 3">> \o [t \in 1..Threads |-> CallText(o, work[t])] \o <<"endpar">>)
=============================================================================
