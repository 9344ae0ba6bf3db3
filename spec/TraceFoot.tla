------------------------------ MODULE TraceFoot ------------------------------
(* Do the recorded sizes and heap counts satisfy Footprint? *)
EXTENDS Footprint, Json, IOUtils
VARIABLES l, T, set, map
tvars == <<l, T, set, map>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
Step(e) ==
    CASE e.e = "begin" -> T' = e.T /\ set' = 0 /\ map' = 0
      [] e.e = "sizes" -> /\ ~HasDyn(T)
                          /\ SetSizeOk(T, e.set) /\ MapSizeOk(T, e.map8, e.map1, e.map160) /\ RawSizeOk(T, e.raw)
                          /\ set' = e.set /\ map' = (IF e.big = 1 THEN e.map160 ELSE e.map8) /\ UNCHANGED T
      \* no operation touches the heap, no operation changes a size
      [] e.e = "foot"  -> e.heap = 0 /\ e.set = set /\ e.map = map /\ UNCHANGED <<T, set, map>>
      [] e.e = "eof"   -> UNCHANGED <<T, set, map>>
      [] OTHER         -> FALSE
TraceInit == l = 1 /\ T = [t |-> "one"] /\ set = 0 /\ map = 0
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Reached == PrintT(<<"REACHED", TLCGet("stats").diameter, Len(Trace)>>)
=============================================================================
