------------------------------- MODULE MCGrid -------------------------------
(***************************************************************************)
(* Grids under every sequence of MaxDepth operations.  Every value written *)
(* is new, so that a value at the wrong place shows.                       *)
(***************************************************************************)
EXTENDS Script

CONSTANTS Sizes,       \* starting sizes 10 * nu + nv
          Types,       \* element types of the real grid
          MaxDepth,
          Lines        \* also write whole lines, and insert copies of cells

VARIABLES type, hist, fresh
mcvars == <<heap, disk, memo, type, hist, fresh>>

G == heap["g"].v
InitialCells(g) == TLCEval([n \in 1..(g.nu * g.nv) |-> "gset g " \o Str((n - 1) % g.nu) \o " " \o Str((n - 1) \div g.nu) \o " " \o Str(n)])
Start(nu, nv) == [nu |-> nu, nv |-> nv, c |-> [q \in GridCells(nu, nv) |-> q[2] * nu + q[1] + 1]]

LineS(xs) == Str(Len(xs)) \o " " \o Join([i \in 1..Len(xs) |-> Str(xs[i])], " ")
News(n) == [i \in 1..n |-> fresh + i]
Cmd(name, args) == name \o " g " \o Join([i \in 1..Len(args) |-> Str(args[i])], " ")
Do(cmd, n, g) == Put("g", "grid", g) /\ hist' = hist \o <<cmd, "gshow g">> /\ fresh' = fresh + n /\ UNCHANGED type

Init == \E z \in Sizes :
          LET nu == z \div 10  nv == z % 10
          IN  /\ heap = ("g" :> [k |-> "grid", v |-> Start(nu, nv)]) /\ disk = <<>> /\ memo = <<>>
              /\ type \in Types /\ fresh = nu * nv
              /\ hist = <<"gnew g " \o type \o " " \o Str(nu) \o " " \o Str(nv) \o " 0">> \o InitialCells(Start(nu, nv))
Next ==
    /\ TLCGet("level") <= MaxDepth
    /\ \/ \E u \in 0..(G.nu - 1), v \in 0..(G.nv - 1) :
            Do(Cmd("gset", <<u, v, fresh + 1>>), 1, GridSet(G, u, v, fresh + 1))
       \/ \E k \in 0..(G.nu - 1) : Do(Cmd("ginsu", <<k, fresh + 1>>), 1, GridInsertU(G, k, fresh + 1))
       \/ \E k \in 0..(G.nv - 1) : Do(Cmd("ginsv", <<k, fresh + 1>>), 1, GridInsertV(G, k, fresh + 1))
       \/ \E k \in 0..(G.nu - 1) : Do(Cmd("ginsu", <<k, 0>>), 0, GridInsertU(G, k, 0))
       \/ Lines /\ \E k \in 0..(G.nv - 1) : Do(Cmd("ginsv", <<k, 0>>), 0, GridInsertV(G, k, 0))
       \/ Lines /\ \E u \in 0..(G.nu - 1) : Do("gsetu g " \o Str(u) \o " " \o LineS(News(G.nv)), G.nv, GridSetU(G, u, News(G.nv)))
       \/ Lines /\ \E v \in 0..(G.nv - 1) : Do("gsetv g " \o Str(v) \o " " \o LineS(News(G.nu)), G.nu, GridSetV(G, v, News(G.nu)))
       \/ Lines /\ \E k \in 0..(G.nu - 1), u \in 0..(G.nu - 1), v \in 0..(G.nv - 1) :
            Do(Cmd("ginsucell", <<k, u, v>>), 0, GridInsertU(G, k, GridGet(G, u, v)))
       \/ Lines /\ \E k \in 0..(G.nv - 1), u \in 0..(G.nu - 1), v \in 0..(G.nv - 1) :
            Do(Cmd("ginsvcell", <<k, u, v>>), 0, GridInsertV(G, k, GridGet(G, u, v)))
Spec == Init /\ [][Next]_mcvars
View == <<heap, type, hist>>

---------------------------------------------------------------------------
IsMap == G.nu >= 1 /\ G.nv >= 1 /\ DOMAIN G.c = GridCells(G.nu, G.nv) /\ Len(GridCellsSeq(G)) = G.nu * G.nv
(* Reading by cell, by u-line and by v-line agree.                         *)
ReadsAgree == \A q \in GridCells(G.nu, G.nv) :
    GridGet(G, q[1], q[2]) = GridGetU(G, q[1])[q[2] + 1] /\ GridGet(G, q[1], q[2]) = GridGetV(G, q[2])[q[1] + 1]
(* Line insertions in the two directions commute.                          *)
Commute == \A i \in 0..(G.nu - 1), j \in 0..(G.nv - 1) :
    GridInsertU(GridInsertV(G, j, 7), i, 7) = GridInsertV(GridInsertU(G, i, 7), j, 7)

---------------------------------------------------------------------------
Reads == LET us == [i \in 1..G.nu |-> "ggetu g " \o Str(i - 1)]
             vs == [i \in 1..G.nv |-> "ggetv g " \o Str(i - 1)]
         IN  us \o vs \o <<"gget g " \o Str(G.nu - 1) \o " " \o Str(G.nv - 1), "gget g 0 " \o Str(G.nv - 1)>>
Emit == TLCGet("level") > MaxDepth => Behaviour(hist \o Reads)
=============================================================================
