------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Conformance: is a recorded history of the real library one that Api     *)
(* allows?  A file holds many sessions, each beginning with an event whose *)
(* s is true; each is checked on its own from the initial state of Api.    *)
(***************************************************************************)
EXTENDS Api, Jpath, Json, IOUtils
Events == ndJsonDeserialize(IOEnv.TRACE)
Docs == ndJsonDeserialize(IOEnv.DOCS)       \* documents that events refer to by number

(* Values nested too deeply for the JSON reader come as tables, the parts before the whole. *)
Untab(n) == Last(FoldLeft(LAMBDA acc, x : Append(acc, CASE x.t = "a" -> ArrV(TLCEval([i \in 1..Len(x.a) |-> acc[x.a[i]]]))
                                                        [] x.t = "o" -> [t |-> "o", k |-> x.k, v |-> TLCEval([i \in 1..Len(x.v) |-> acc[x.v[i]]])]
                                                        [] OTHER -> x), <<>>, n))
Whole(v) == IF v.t = "T" THEN Untab(v.n) ELSE v
DocNo(i) == Whole(Docs[i])
Wholes(vs) == IF \E i \in 1..Len(vs) : vs[i].t = "T" THEN TLCEval([i \in 1..Len(vs) |-> Whole(vs[i])]) ELSE vs
OutOf(e) == [e.out EXCEPT !.vs = Wholes(@)]

VARIABLES l,      \* the next event of this session
          ph      \* "run", or "ok" / "bad" / "skip": how it ended
vars == <<l, ph, docs, hs, calls, held>>

Starts == { i \in 1..Len(Events) : Events[i].s }
TraceInit == ApiInit /\ l \in Starts /\ ph = "run"

Say(v) == IF v = Allowed THEN TRUE ELSE PrintT(<<v, l>>)
Advance(v) == \* the event has verdict v
  /\ Say(v)
  /\ IF v = Wrong THEN ph' = "bad" /\ l' = l
     ELSE IF l < Len(Events) /\ ~Events[l + 1].s THEN ph' = "run" /\ l' = l + 1 ELSE ph' = "ok" /\ l' = l
Ok(b) == IF b THEN Allowed ELSE Wrong
Ev == Events[l]
Event(name) == ph = "run" /\ Ev.ev = name

TOnce == Event("once") /\ UNCHANGED api /\ Advance(OnceVerdict(Ev.p, DocNo(Ev.d), OutOf(Ev)))
TRobust == Event("robust") /\ UNCHANGED api /\ Advance(Ok(Ev.out.r \in {"ok", "error", "rejected"}))
TTree == Event("tree") /\ UNCHANGED api /\ Advance(TreeVerdict(Ev.kind, Ev.p, Ev.ok, Ev.tree))
TDoc == Event("doc") /\ NewDoc(Ev.d, DocNo(Ev.v)) /\ Advance(Allowed)
TCompile == Event("compile") /\ LET p == ParsePath(Ev.p) IN
              /\ IF Ev.ok THEN CompileOK(Ev.h, Ev.p, p) ELSE CompileNo
              /\ Advance(CompileVerdict(p, Ev.ok))
TBegin == Event("begin") /\ Begin(Ev.c, Ev.h, Ev.d) /\ Advance(Allowed)
TEnd == Event("end") /\ End(Ev.c, OutOf(Ev)) /\ Advance(EndVerdict(Ev.c, OutOf(Ev)))
TScribble == Event("scribble") /\ Scribble(Ev.c, Wholes(Ev.vs)) /\ Advance(Allowed)
(* observations: Look, TextOfHandle, Held, Located, Quiet of Api *)
Observe(name, b) == Event(name) /\ UNCHANGED api /\ Advance(Ok(b))
TLook == Event("look") /\ Observe("look", IsDoc(Ev.d, DocNo(Ev.v)))
TText == Event("text") /\ Observe("text", IsText(Ev.h, Ev.p))
THeld == Event("held") /\ Observe("held", IsHeld(Ev.c, Wholes(Ev.vs)))
TWhere == Event("where") /\ Observe("where", IsLocated(Ev.c, Ev.at))
TQuiet == Event("quiet") /\ Observe("quiet", IsQuiet(Ev.n))
TKept == Event("kept") /\ Observe("kept", IsForgotten(Ev.n, Ev.of))
(* a run of the jpath command *)
TCli == Event("cli") /\ UNCHANGED api /\
  LET p == ParsePath(Ev.p)
      item(it) == IF it.k = "bad" THEN it ELSE [k |-> "val", R |-> Result(p.e, DocNo(it.d))]
      src == TLCEval([i \in 1..Len(Ev.src) |-> [missing |-> Ev.src[i].missing, items |-> TLCEval([j \in 1..Len(Ev.src[i].items) |-> item(Ev.src[i].items[j])])]])
      ok == p.ok /\ ~Ev.usage
      run == [ok |-> ok, src |-> IF ok THEN src ELSE <<>>, sink |-> Ev.sink]
      ans == [code |-> Ev.code, msg |-> Ev.msg, tail |-> Ev.tail,
              lists |-> TLCEval([i \in 1..Len(Ev.lists) |-> [vs |-> Wholes(Ev.lists[i].vs), sep |-> Ev.lists[i].sep]])]
  IN Advance(IF ~p.ok /\ p.u THEN Free ELSE CliVerdict(run, ans))
TDone == ph # "run" /\ UNCHANGED vars

TraceNext == TOnce \/ TRobust \/ TTree \/ TDoc \/ TLook \/ TCompile \/ TText \/ TBegin \/ TEnd \/ TScribble \/ THeld \/ TWhere \/ TQuiet \/ TKept \/ TCli \/ TDone
TraceSpec == TraceInit /\ [][TraceNext]_vars
(* Deadlock checking is on: every session is read to its end or to an event that is not allowed, none is passed
   over in silence because no action recognises its next event. *)
=============================================================================
