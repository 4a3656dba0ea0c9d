------------------------------ MODULE TraceMem ------------------------------
(***************************************************************************)
(* What any call may do, whatever it computes: it begins on registers that *)
(* hold something, and it ends - with a result or an exception.  There is  *)
(* no step for a call that ends the process: an access outside its data,   *)
(* the use of uninitialised or freed memory, undefined behaviour, or a     *)
(* failed assertion.  The state is the set of registers in use.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

VARIABLES live, pos
tvars == <<live, pos>>

Trace == TLCEval(ndJsonDeserialize(IOEnv.VQ_TRACE))

Dead == {"crash", "race"}
Has(e, f) == f \in DOMAIN e
(* Registers a call reads, and the one it fills.                           *)
Reads(e) == {e[f] : f \in {g \in {"r"} : Has(e, g)}}
Fills(e) == IF ~Has(e, "ok") \/ e.ok # 1 THEN {}
            ELSE {e[f] : f \in {g \in {"r", "d"} : Has(e, g)}}
Makes == {"curve", "surf", "kv", "kvlist", "kvpairs", "kvuni", "gnew", "bxmake", "gseg", "grect", "qnew", "load", "loadcut", "loadtxt", "loadbad"}

Step(e) ==
    IF e.op = "reset" THEN live' = {}
    ELSE /\ e.op \notin Dead
         /\ e.op \in Makes \/ \A r \in Reads(e) : r \in live
         /\ live' = live \cup Fills(e)

TraceInit == live = {} /\ pos = 1
TraceNext == /\ pos <= Len(Trace)
             /\ Step(Trace[pos])
             /\ pos' = pos + 1
TraceView == pos
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted ==
    LET d == TLCGet("stats").diameter
    IN  PrintT(<<"VQ-ACCEPTED", d - 1, Len(Trace)>>)
=============================================================================
