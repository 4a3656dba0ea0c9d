------------------------------- MODULE Grids --------------------------------
(***************************************************************************)
(* The grid container: a map from cells (u, v) to values.                  *)
(* G = [nu, nv, c] with c a function on (0..nu-1) \X (0..nv-1).            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

GridCells(nu, nv) == (0..(nu - 1)) \X (0..(nv - 1))
GridNew(nu, nv, x) == [nu |-> nu, nv |-> nv, c |-> [q \in GridCells(nu, nv) |-> x]]

GridGet(G, u, v) == G.c[<<u, v>>]
GridGetU(G, u) == [j \in 1..G.nv |-> G.c[<<u, j - 1>>]]       \* the line u = const
GridGetV(G, v) == [i \in 1..G.nu |-> G.c[<<i - 1, v>>]]       \* the line v = const

GridSet(G, u, v, x) == [G EXCEPT !.c[<<u, v>>] = x]
GridSetU(G, u, xs) == [G EXCEPT !.c = [q \in GridCells(G.nu, G.nv) |-> IF q[1] = u THEN xs[q[2] + 1] ELSE G.c[q]]]
GridSetV(G, v, xs) == [G EXCEPT !.c = [q \in GridCells(G.nu, G.nv) |-> IF q[2] = v THEN xs[q[1] + 1] ELSE G.c[q]]]

(* Before the insertion the cell q was ...                                 *)
GridInsertU(G, k, x) ==
    [nu |-> G.nu + 1, nv |-> G.nv,
     c |-> [q \in GridCells(G.nu + 1, G.nv) |->
              IF q[1] = k THEN x ELSE IF q[1] < k THEN G.c[q] ELSE G.c[<<q[1] - 1, q[2]>>]]]
GridInsertV(G, k, x) ==
    [nu |-> G.nu, nv |-> G.nv + 1,
     c |-> [q \in GridCells(G.nu, G.nv + 1) |->
              IF q[2] = k THEN x ELSE IF q[2] < k THEN G.c[q] ELSE G.c[<<q[1], q[2] - 1>>]]]

(* What the code shows: counts, number of stored values, and all cells     *)
(* read one by one, v = 0 first, u running fastest.                        *)
GridCellsSeq(G) == [n \in 1..(G.nu * G.nv) |-> G.c[<<(n - 1) % G.nu, (n - 1) \div G.nu>>]]
GridShown(G, nu, nv, count, stored, cells) ==
    /\ nu = G.nu /\ nv = G.nv
    /\ count = G.nu * G.nv /\ stored = G.nu * G.nv
    /\ cells = GridCellsSeq(G)
=============================================================================
