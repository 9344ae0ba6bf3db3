------------------------------ MODULE TraceCap ------------------------------
(* Do the capabilities and verdicts recorded from the compiler satisfy Capability? *)
EXTENDS Capability, TLC, Json, IOUtils
VARIABLES l, T, kc
tvars == <<l, T, kc>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
Set(s) == {s[i] : i \in 1..Len(s)}
Step(e) ==
    CASE e.e = "begin"  -> T' = e.T /\ kc' = {}
      [] e.e = "key"    -> kc' = Set(e.caps) /\ UNCHANGED T
      \* vc: what the value type offers; caps: what the library offers for it
      [] e.e = "caps"   -> Set(e.caps) \subseteq Caps /\ Offers(e.what, T, kc, Set(e.vc), Set(e.caps)) /\ UNCHANGED <<T, kc>>
      \* every operation may be used with values that offer nothing
      [] e.e = "use"    -> e.verdict = "accept" /\ UNCHANGED <<T, kc>>
      [] e.e = "pair"   -> e.verdict = Pair(e.a, e.b) /\ UNCHANGED <<T, kc>>
      [] e.e = "escape" -> e.verdict = Escape(e.a) /\ UNCHANGED <<T, kc>>
      [] e.e = "access" -> e.verdict = Access(e.a, e.how) /\ UNCHANGED <<T, kc>>
      [] e.e = "config" -> e.verdict = Config(e.T, e.serde = 1, Set(e.on)) /\ UNCHANGED <<T, kc>>
      [] e.e = "eof"    -> UNCHANGED <<T, kc>>
      [] OTHER          -> FALSE
TraceInit == l = 1 /\ T = [t |-> "one"] /\ kc = {}
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Reached == PrintT(<<"REACHED", TLCGet("stats").diameter, Len(Trace)>>)
=============================================================================
