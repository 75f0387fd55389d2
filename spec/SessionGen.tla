----------------------------- MODULE SessionGen -----------------------------
(***************************************************************************)
(* Every session of up to Depth operations in which callers use two        *)
(* compiled paths on two documents: evaluations begin and end (at most     *)
(* Flight of them at once), their results are overwritten or extended,     *)
(* documents are changed by their owner, paths are compiled again.  Which  *)
(* operations there may be is what the actions of Api allow; TLC prints    *)
(* each behaviour once, and the driver carries it out on the real library, *)
(* with paths and documents of its choice.                                 *)
(*   bHD evaluation of path H on document D begins   eC evaluation C ends  *)
(*   wC  its result is overwritten    aC it is extended                    *)
(*   dD  the document is changed      kH the path is compiled again        *)
(***************************************************************************)
EXTENDS Api
CONSTANTS Depth, Flight
VARIABLES hist, made      \* the operations so far; evaluations so far
gen == <<hist, made>>
Paths == 1..2
Document == 1..2
Does(o, x) == hist' = Append(hist, o \o x)
GenInit ==
  /\ docs = [d \in Document |-> NullV] /\ hs = [i \in Paths |-> [text |-> <<>>, p |-> [ok |-> TRUE]]]
  /\ calls = None /\ held = None /\ hist = <<>> /\ made = 0
GBegin(i, d) ==
  /\ Cardinality(DOMAIN calls) < Flight
  /\ made = 0 => i = 1 /\ d = 1          \* the two are alike
  /\ Begin(made + 1, i, d) /\ made' = made + 1 /\ Does("b", ToString(i) \o ToString(d))
GEnd(c) == End(c, [r |-> "ok", vs |-> <<>>]) /\ Does("e", ToString(c)) /\ UNCHANGED made
GWrite(c) == held # None /\ Scribble(c, <<NullV>>) /\ Does("w", ToString(c)) /\ UNCHANGED made
GExtend(c) == held # None /\ Scribble(c, Append(held[c].vs, NullV)) /\ Does("a", ToString(c)) /\ UNCHANGED made
(* a document is not changed while it is looked at; results from it are then no longer spoken of *)
GChange(d) ==
  /\ made > 0 /\ \A c \in DOMAIN calls : calls[c].d # d
  /\ docs' = [docs EXCEPT ![d] = TrueV] /\ held' = [c \in { x \in DOMAIN held : held[x].d # d } |-> held[c]] /\ UNCHANGED <<hs, calls>>
  /\ Does("d", ToString(d)) /\ UNCHANGED made
GCompile(i) == made > 0 /\ CompileOK(i, <<>>, [ok |-> TRUE]) /\ Does("k", ToString(i)) /\ UNCHANGED made
GenNext == /\ Len(hist) < Depth
           /\ \/ \E i \in Paths, d \in Document : GBegin(i, d)
              \/ \E c \in DOMAIN calls : GEnd(c)
              \/ \E c \in DOMAIN held : GWrite(c) \/ GExtend(c)
              \/ \E d \in Document : GChange(d)
              \/ \E i \in Paths : GCompile(i)
GenSpec == GenInit /\ [][GenNext]_<<api, gen>>
Emit == Len(hist) = Depth => PrintT(hist)
(* what is generated makes sense *)
Sensible == /\ DOMAIN calls \cap DOMAIN held = {} /\ DOMAIN calls \cup DOMAIN held \subseteq 1..made
            /\ \A c \in DOMAIN calls : calls[c].h \in Paths /\ calls[c].d \in Document
=============================================================================
