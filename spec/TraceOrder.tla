----------------------------- MODULE TraceOrder -----------------------------
(* Are the recorded answers of the ordering traits those of ContainerOrder? *)
EXTENDS ContainerOrder, KeySpace, TLC, Json, IOUtils
VARIABLES l, n
tvars == <<l, n>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
AsPairs(ks) == [i \in 1..Len(ks) |-> <<ks[i], 1>>]
Known(s) == \A i \in 1..Len(s) : s[i][1] \in 1..n
Step(e) ==
    CASE e.e = "begin" -> n' = Size(e.T)
      [] e.e = "cmpm"  -> Known(e.a) /\ Known(e.b) /\ Known(e.c) /\ CompareOk(e.a, e.b, e.c, e.total, e) /\ UNCHANGED n
      [] e.e = "cmps"  -> LET a == AsPairs(e.a) b == AsPairs(e.b) c == AsPairs(e.c) IN
                          Known(a) /\ Known(b) /\ Known(c) /\ CompareOk(a, b, c, TRUE, e) /\ UNCHANGED n
      [] e.e = "eof"   -> UNCHANGED n
      [] OTHER         -> FALSE
TraceInit == l = 1 /\ n = 0
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Reached == PrintT(<<"REACHED", TLCGet("stats").diameter, Len(Trace)>>)
=============================================================================
