------------------------------ MODULE TraceMap ------------------------------
(***************************************************************************)
(* Is a recorded trace of the real Map a behaviour of FixedMap?  Line l of *)
(* the trace must be an enabled action with exactly the recorded results.  *)
(* In ownership runs (events with a field d) value numbers are identities  *)
(* and every action must also account for every value: what was held or    *)
(* came in (in) is still held, was handed out (out) or was dropped (d).    *)
(***************************************************************************)
EXTENDS FixedMap, KeySpace, Json, IOUtils

VARIABLES l,
          leak   \* values lost for good (only by the known finding below)
tvars == <<l, leak, rank, maps, its, ent>>

Trace == ndJsonDeserialize(IOEnv.TRACE)

RECURSIVE CountIn(_)
CountIn(s) == IF s = {} THEN 0 ELSE LET o == CHOOSE x \in s : TRUE IN Cardinality(Dom(maps[o])) + CountIn(s \ {o})
LiveCount == CountIn(DOMAIN maps)

SeqSet(s) == {s[i] : i \in 1..Len(s)}
Step(e) ==
    CASE e.e = "begin"    -> Begin(Ranks(e.T))
      [] e.e = "new"      -> New(e.o)
      [] e.e = "drop"     -> DropMap(e.o)
      [] e.e = "insert"   -> Insert(e.o, e.k, e.v, e.r)
      [] e.e = "remove"   -> Remove(e.o, e.k, e.r)
      [] e.e = "get"      -> Get(e.o, e.k, e.r)
      [] e.e = "contains" -> Contains(e.o, e.k, e.r)
      [] e.e = "getmut"   -> GetMut(e.o, e.k, e.r, e.w)
      [] e.e = "clear"    -> Clear(e.o)
      [] e.e = "snap"     -> Snap(e.o, e.g, e.c)
      [] e.e = "adopt"    -> Adopt(e.o, e.g)
      [] e.e = "len"      -> MapLen(e.o, e.r)
      [] e.e = "empty"    -> MapIsEmpty(e.o, e.r)
      [] e.e = "views"    -> Views(e.o, e.s, e.ks, e.vs)
      [] e.e = "ventries" -> ViewEntries(e.o, e.s)
      [] e.e = "consume"  -> Consume(e.o, e.s)
      [] e.e = "ordconsume" -> OrdConsume(e.o, e.s)
      [] e.e = "ordentries" -> OrdEntries(e.o, e.s)
      [] e.e = "ordkeys"  -> OrdKeys(e.o, e.ks)
      [] e.e = "ordvalues" -> OrdValues(e.o, e.vs)
      [] e.e = "retain"   -> Retain(e.o, e.vis)
      [] e.e = "retainpanic" -> RetainPanic(e.o, e.vis, e.post)
      [] e.e = "from"     -> FromSeq(e.o, e.s, e.all)
      [] e.e = "frompanic" -> NotBuilt
      [] e.e = "clone"    -> IF "d" \in DOMAIN e THEN CloneFresh(e.o, e.o2, e.g) ELSE Clone(e.o, e.o2)
      [] e.e = "clonepanic" -> NotBuilt
      [] e.e = "eq"       -> Equal(e.o, e.o2, e.eq, e.ne)
      [] e.e = "hash"     -> HashAgree(e.o, e.o2, e.same)
      [] e.e = "ser"      -> e.ok /\ SerializeTo(e.o, e.n, e.s)
      [] e.e = "de"       -> DeserializeFrom(e.o, e.s, e.mal, e.ok)
      [] e.e = "roundtrip" -> RoundTrip(e.o, e.o2, e.ok)
      [] e.e = "it_new"   -> IterNew(e.j, e.o, e.kind)
      [] e.e = "it_next"  -> Next1(e.j, e.r)
      [] e.e = "it_back"  -> NextBack1(e.j, e.r)
      [] e.e = "it_nth"   -> Nth(e.j, e.c, e.r)
      [] e.e = "it_nthb"  -> NthBack(e.j, e.c, e.r)
      [] e.e = "it_find"  -> Find(e.j, e.c, e.s, e.r, e.p)
      [] e.e = "it_rfind" -> FindBack(e.j, e.c, e.s, e.r, e.how, e.p)
      [] e.e = "it_hint"  -> SizeHint(e.j, e.lo, e.hi)
      [] e.e = "it_len"   -> ExactLen(e.j, e.r)
      [] e.e = "it_clone" -> IterClone(e.j, e.j2)
      [] e.e = "it_write" -> Write(e.j, e.i, e.w)
      [] e.e = "it_drain" -> Drain(e.j, e.s)
      [] e.e = "it_drainb" -> DrainBack(e.j, e.s)
      [] e.e = "it_cut"   -> Cut(e.j, e.s)
      [] e.e = "it_cutb"  -> CutBack(e.j, e.s)
      [] e.e = "it_count" -> Count(e.j, e.r)
      [] e.e = "it_last"  -> Last(e.j, e.r)
      [] e.e = "it_drop"  -> IterDrop(e.j)
      [] e.e = "e_open"   -> EntryOpen(e.o, e.k, e.b)
      [] e.e = "e_key"    -> EntryKey(e.r)
      [] e.e = "e_match"  -> EntryMatch(e.b)
      [] e.e = "e_and_modify" -> AndModify(e.n, e.r, e.w)
      [] e.e = "e_or"     -> OrInsert(e.how, e.v, e.n, e.ck, e.r)
      [] e.e = "o_get"    -> OccGet(e.r)
      [] e.e = "o_get_mut" -> OccGetMut(e.r, e.w)
      [] e.e = "o_insert" -> OccInsert(e.v, e.r)
      [] e.e = "o_remove" -> OccRemove(e.r)
      [] e.e = "o_into_mut" -> OccIntoMut(e.r)
      [] e.e = "v_insert" -> VacInsert(e.v, e.r)
      [] e.e = "r_write"  -> RefWrite(e.r, e.w)
      [] e.e = "e_drop"   -> EntryDrop
      [] e.e = "e_panic"  -> IF e.at = "e_and_modify" THEN ModifyPanic(e.n, e.r) ELSE OrPanic(e.how, e.n, e.ck)
      [] e.e = "boom"     -> Boom(e.how, e.o, e.m, e.vis, SeqSet(e["in"]))
      [] e.e = "end"      -> e.live = leak /\ e.bad = 0 /\ maps = NoFn /\ Idle
      \* counted runs: exactly the values in the maps are alive
      [] e.e = "live"     -> e.n = LiveCount /\ e.bad = 0 /\ Idle
      [] e.e = "eof"      -> Idle
      \* panic, crash, hang, baddebug: never allowed
      [] OTHER            -> FALSE

\* all values the library holds
HeldNow ==
    UNION ({{maps[o][k] : k \in Dom(maps[o])} : o \in DOMAIN maps} \cup
           {{its[j].m[k] : k \in its[j].rem} : j \in {i \in DOMAIN its : its[i].kind = "into"}})
Distinct(s) == Cardinality(SeqSet(s)) = Len(s)
\* Known finding "clone-leak": when cloning a value panics inside a block of
\* dynamically stored keys, the clones already made in that block are lost.
\* The check fails unless the finding is listed.
Lost(e) == SeqSet(e["in"]) \ (SeqSet(e.out) \cup SeqSet(e.d))
CloneLeak(e) ==
    /\ e.e = "clonepanic" /\ Lost(e) # {}
    /\ \E k \in Dom(maps[e.o]) :
         Cardinality(Lost(e)) < Cardinality({x \in Dom(maps[e.o]) : rank[x] = rank[k]})
\* after the panic of a destructor values may be lost, but nothing worse
LostToPanic(e) == (HeldNow \cup SeqSet(e["in"])) \ (HeldNow' \cup SeqSet(e.out) \cup SeqSet(e.d))
Leaked(e) == CASE e.e = "clonepanic" /\ CloneLeak(e) -> Lost(e)
               [] e.e = "boom" /\ e.hit -> LostToPanic(e)
               [] OTHER -> {}
Accounted(e) ==
    /\ e.bad = 0 /\ Distinct(e.d) /\ Distinct(e.out)
    /\ SeqSet(e.d) \cap SeqSet(e.out) = {}
    /\ HeldNow \cup SeqSet(e["in"]) = HeldNow' \cup SeqSet(e.out) \cup SeqSet(e.d) \cup Leaked(e)
    /\ (SeqSet(e.out) \cup SeqSet(e.d)) \cap HeldNow' = {}

TraceInit == l = 1 /\ leak = 0 /\ MapInit
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ Step(Trace[l])
    /\ ("d" \in DOMAIN Trace[l]) => Accounted(Trace[l])
    /\ leak' = IF Trace[l].e = "begin" THEN 0
               ELSE IF "d" \in DOMAIN Trace[l] /\ Leaked(Trace[l]) # {} /\ (Trace[l].e = "boom" \/ PrintT(<<"KNOWN", "clone-leak">>))
               THEN leak + Cardinality(Leaked(Trace[l])) ELSE leak
TraceSpec == TraceInit /\ [][TraceNext]_tvars

Reached == PrintT(<<"REACHED", TLCGet("stats").diameter, Len(Trace)>>)
=============================================================================
