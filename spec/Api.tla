-------------------------------- MODULE Api --------------------------------
(***************************************************************************)
(* The library as its users see it: documents they hold, paths they have   *)
(* compiled, evaluations in flight and results they have been given.       *)
(* Every action is one observable step; its guard says what the library    *)
(* may answer, its effect what may differ afterwards.                      *)
(***************************************************************************)
EXTENDS Eval

VARIABLES docs,    \* document id -> value
          hs,      \* handle -> [text, p]: p as given by ParsePath
          calls,   \* evaluation in flight -> [h, d]
          held     \* finished evaluation -> [d, vs]: the list its caller holds
api == <<docs, hs, calls, held>>

None == <<>>
ApiInit == docs = None /\ hs = None /\ calls = None /\ held = None

Allowed == "ok"
Wrong == "bad"
Free == "skip"      \* the specification says nothing about this answer

(* May Compile accept (or reject) the text? *)
CompileVerdict(p, accepted) ==
  IF p.ok THEN (IF accepted THEN Allowed ELSE Wrong)
  ELSE IF p.u THEN Free ELSE IF accepted THEN Wrong ELSE Allowed
(* May a parser of the packages below give this tree for the text (or accept it at all)?  kind: "path" or "expr" *)
TreeVerdict(kind, text, accepted, tree) ==
  LET p == IF kind = "path" THEN ParsePath(text) ELSE ParseExpression(text) c == CompileVerdict(p, accepted) IN
  IF c # Allowed \/ ~accepted THEN c
  ELSE IF tree = (IF kind = "path" THEN p.e ELSE <<p.e>>) THEN Allowed ELSE Wrong
(* May an evaluation of the path p on the document end so?  out: [r |-> "ok", vs] or [r |-> "error"],
   anything else is never allowed *)
EvalVerdict(p, doc, out) ==
  IF out.r \notin {"ok", "error"} THEN Wrong
  ELSE IF ~p.ok THEN Free
  ELSE LET R == Result(p.e, doc) IN
       IF R.f = "stop" THEN (IF R.v.t = "U" THEN Free ELSE IF out.r = "error" THEN Allowed ELSE Wrong)
       ELSE IF out.r = "ok" /\ Reads(R, out.vs) THEN Allowed ELSE Wrong
(* Compile and evaluate at once; out.r may also be "rejected" *)
OnceVerdict(text, doc, out) ==
  LET p == ParsePath(text) c == CompileVerdict(p, out.r # "rejected") IN
  IF out.r \notin {"ok", "error", "rejected"} THEN Wrong
  ELSE IF c # Allowed \/ out.r = "rejected" THEN c
  ELSE EvalVerdict(p, doc, out)

Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]

(* the user's document *)
NewDoc(d, v) == docs' = (d :> v) @@ docs /\ UNCHANGED <<hs, calls, held>>
(* looking at a document shows what was put there *)
IsDoc(d, v) == v = docs[d]
Look(d, v) == IsDoc(d, v) /\ UNCHANGED api
(* Compile *)
CompileOK(h, text, p) == hs' = (h :> [text |-> text, p |-> p]) @@ hs /\ UNCHANGED <<docs, calls, held>>
CompileNo == UNCHANGED api
(* String *)
IsText(h, text) == text = hs[h].text
TextOfHandle(h, text) == IsText(h, text) /\ UNCHANGED api
(* Eval: call and return *)
Begin(c, h, d) == c \notin DOMAIN calls /\ calls' = (c :> [h |-> h, d |-> d]) @@ calls /\ UNCHANGED <<docs, hs, held>>
End(c, out) ==
  /\ c \in DOMAIN calls
  /\ calls' = Without(calls, c)
  /\ held' = IF out.r = "ok" THEN (c :> [d |-> calls[c].d, vs |-> out.vs]) @@ held ELSE held
  /\ UNCHANGED <<docs, hs>>
EndVerdict(c, out) == EvalVerdict(hs[calls[c].h].p, docs[calls[c].d], out)
(* the caller overwrites or extends a result: its own business *)
Scribble(c, vs) == c \in DOMAIN held /\ held' = [held EXCEPT ![c].vs = vs] /\ UNCHANGED <<docs, hs, calls>>
(* a result looked at again is as the caller left it *)
IsHeld(c, vs) == c \in DOMAIN held /\ vs = held[c].vs
Held(c, vs) == IsHeld(c, vs) /\ UNCHANGED api
(* where in the document the containers of a result are (by identity): at[i] is a position, or <<0>> for a value
   without identity *)
RECURSIVE ValueAt(_, _)
ValueAt(v, pos) == IF pos = <<>> THEN v
                   ELSE IF ~IsContainer(v) \/ Head(pos) \notin 1..Len(Children(v)) THEN [t |-> "nowhere"]
                   ELSE ValueAt(Children(v)[Head(pos)], Tail(pos))
HasIdentity(v) == (v.t = "o") \/ (v.t = "a" /\ v.a # <<>>)
IsLocated(c, at) ==
  /\ c \in DOMAIN held
  /\ Len(at) = Len(held[c].vs)
  /\ \A i \in 1..Len(at) : HasIdentity(held[c].vs[i]) => at[i] # <<0>> /\ ValueAt(docs[held[c].d], at[i]) = held[c].vs[i]
Located(c, at) == IsLocated(c, at) /\ UNCHANGED api
(* the number of processes evaluations have left running, seen when none is in flight *)
IsQuiet(n) == calls = None /\ n = 0
Quiet(n) == IsQuiet(n) /\ UNCHANGED api
(* n of the last k documents that their callers have dropped are still held: what evaluations hold does not grow with their number *)
IsForgotten(n, k) == calls = None /\ 4 * n <= k
=============================================================================
