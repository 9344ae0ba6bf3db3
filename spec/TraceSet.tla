------------------------------ MODULE TraceSet ------------------------------
(* Is a recorded trace of the real Set a behaviour of FixedSet? *)
EXTENDS FixedSet, KeySpace, Json, IOUtils

VARIABLE l
tvars == <<l, rank, sets, its>>
Trace == ndJsonDeserialize(IOEnv.TRACE)

Step(e) ==
    CASE e.e = "begin"    -> Begin(Ranks(e.T))
      [] e.e = "new"      -> New(e.o)
      [] e.e = "drop"     -> DropSet(e.o)
      [] e.e = "insert"   -> Insert(e.o, e.k, e.r)
      [] e.e = "remove"   -> Remove(e.o, e.k, e.r)
      [] e.e = "contains" -> Contains(e.o, e.k, e.r)
      [] e.e = "clear"    -> Clear(e.o)
      [] e.e = "snap"     -> Snap(e.o, e.c)
      [] e.e = "adopt"    -> Adopt(e.o, e.c)
      [] e.e = "len"      -> SetLen(e.o, e.r)
      [] e.e = "empty"    -> SetIsEmpty(e.o, e.r)
      [] e.e = "vkeys"    -> ViewKeys(e.o, e.ks)
      [] e.e = "consume"  -> Consume(e.o, e.ks)
      [] e.e = "ordconsume" -> OrdConsume(e.o, e.ks)
      [] e.e = "ordkeys"  -> OrdKeys(e.o, e.ks)
      [] e.e = "retain"   -> Retain(e.o, e.vis)
      [] e.e = "retainpanic" -> RetainPanic(e.o, e.vis, e.post)
      [] e.e = "from"     -> FromSeq(e.o, e.s, e.all)
      [] e.e = "frompanic" -> NotBuilt
      [] e.e = "clone"    -> Clone(e.o, e.o2)
      [] e.e = "eq"       -> Equal(e.o, e.o2, e.eq, e.ne)
      [] e.e = "hash"     -> HashAgree(e.o, e.o2, e.same)
      [] e.e = "raw"      -> AsRaw(e.o, e.bits)
      [] e.e = "fromraw"  -> FromRaw(e.o, e.bits)
      [] e.e = "ser"      -> e.ok /\ SerializeTo(e.o, e.n, e.s)
      [] e.e = "de"       -> DeserializeFrom(e.o, e.s, e.mal, e.ok)
      [] e.e = "roundtrip" -> RoundTrip(e.o, e.o2, e.ok)
      [] e.e = "it_new"   -> IterNew(e.j, e.o, e.kind)
      [] e.e = "it_inter" -> InterNew(e.j, e.o, e.o2)
      [] e.e = "it_next"  -> Next1(e.j, e.r)
      [] e.e = "it_back"  -> NextBack1(e.j, e.r)
      [] e.e = "it_nth"   -> Nth(e.j, e.c, e.r)
      [] e.e = "it_nthb"  -> NthBack(e.j, e.c, e.r)
      [] e.e = "it_find"  -> Find(e.j, e.c, e.s, e.r, e.p)
      [] e.e = "it_rfind" -> FindBack(e.j, e.c, e.s, e.r, e.how, e.p)
      [] e.e = "it_hint"  -> SizeHint(e.j, e.lo, e.hi)
      [] e.e = "it_len"   -> ExactLen(e.j, e.r)
      [] e.e = "it_clone" -> IterClone(e.j, e.j2)
      [] e.e = "it_peek"  -> Peek(e.j, e.s)
      [] e.e = "it_drain" -> Drain(e.j, e.s)
      [] e.e = "it_drainb" -> DrainBack(e.j, e.s)
      [] e.e = "it_cut"   -> CutFold(e.j, e.s)
      [] e.e = "it_cutb"  -> CutFoldBack(e.j, e.s)
      [] e.e = "it_count" -> Count(e.j, e.r)
      [] e.e = "it_last"  -> Last(e.j, e.r)
      [] e.e = "it_drop"  -> IterDrop(e.j)
      [] e.e = "eof"      -> Idle
      [] OTHER            -> FALSE

TraceInit == l = 1 /\ SetInit
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Reached == PrintT(<<"REACHED", TLCGet("stats").diameter, Len(Trace)>>)
=============================================================================
