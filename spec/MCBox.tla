------------------------------- MODULE MCBox --------------------------------
(***************************************************************************)
(* Two bounding boxes under every sequence of expansions, from every pair  *)
(* of corners over a small set of coordinates; containment and measures in *)
(* every state.                                                            *)
(***************************************************************************)
EXTENDS Script

CONSTANTS Corners,     \* points as numbers of three digits 1..5 (coordinates -1, -1/2, 0, 3/2, 2)
          Points, MaxDepth

VARIABLES seen, hist       \* seen: register -> what it was given
mcvars == <<heap, disk, memo, seen, hist>>

Coord(n) == CASE n = 1 -> Q(-1, 1) [] n = 2 -> Q(-1, 2) [] n = 3 -> Zero [] n = 4 -> Q(3, 2) [] n = 5 -> Q(2, 1)
Pt(n) == <<Coord(n \div 100), Coord((n \div 10) % 10), Coord(n % 10)>>

Init == \E a \in Corners, b \in Corners :
          /\ heap = ("a" :> [k |-> "box", v |-> BoxOf(Pt(a), Pt(b))]) @@ ("b" :> [k |-> "box", v |-> BoxOf(Pt(b), Pt(111))])
          /\ disk = <<>> /\ memo = <<>>
          /\ seen = ("a" :> {Pt(a), Pt(b)}) @@ ("b" :> {Pt(b), Pt(111)})
          /\ hist = <<"bxmake a " \o NumsS(Pt(a)) \o " " \o NumsS(Pt(b)), "bxmake b " \o NumsS(Pt(b)) \o " " \o NumsS(Pt(111))>>
AddPoint(r, n) == LET B == BoxAddPoint(heap[r].v, Pt(n))
                  IN  /\ BPoint(r, Pt(n), B.mn, B.mx)
                      /\ seen' = [seen EXCEPT ![r] = @ \cup {Pt(n)}]
                      /\ hist' = Append(hist, "bxpoint " \o r \o " " \o NumsS(Pt(n)))
AddBox(r, q) == LET B == BoxAddBox(heap[r].v, heap[q].v)
                IN  /\ BBox(r, q, B.mn, B.mx)
                    /\ seen' = [seen EXCEPT ![r] = @ \cup seen[q]]
                    /\ hist' = Append(hist, "bxbox " \o r \o " " \o q)
Next == /\ Len(hist) < MaxDepth + 2
        /\ \/ \E r \in {"a", "b"}, n \in Points : AddPoint(r, n)
           \/ AddBox("a", "b") \/ AddBox("b", "a") \/ AddBox("a", "a")
Spec == Init /\ [][Next]_mcvars
View == <<heap, seen>>

---------------------------------------------------------------------------
(* The box is the smallest one around what it was given.                   *)
Smallest == \A r \in {"a", "b"} : LET B == heap[r].v IN
    /\ \A q \in seen[r] : BoxHas(B, q)
    /\ \A e \in 1..3 : /\ \E q \in seen[r] : REq(q[e], B.mn[e])
                       /\ \E q \in seen[r] : REq(q[e], B.mx[e])
Grows == \A r \in {"a", "b"} : BoxHasBox(heap[r].v, heap[r].v)

Measures == <<"bxmeas a", "bxmeas b", "bxhasbox a b", "bxhasbox b a", "bxhasbox a a">>
Probes == LET ps == AsSeq({"bxhas a " \o NumsS(Pt(n)) : n \in Points \cup Corners}) IN ps
Emit == Behaviour(hist \o Measures \o Probes)
=============================================================================
