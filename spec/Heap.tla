-------------------------------- MODULE Heap --------------------------------
(***************************************************************************)
(* Whose memory is it?  Documents and results are slices of arrays in a    *)
(* heap, as Go has them: a slice is a part of an array, append writes into *)
(* the array's spare room where there is some and copies otherwise.        *)
(* Evaluations build their results by appending; callers overwrite and     *)
(* extend what they were given; owners change their documents.  What       *)
(* everybody then sees must be what Api says: documents as their owners    *)
(* left them, results as their callers left them (see Wanted).             *)
(* Share names a way to save copying that breaks this; each is found:      *)
(*   wild     the list that [*] makes of a single array is that array      *)
(*   slice    the list a slice makes is a part of the document's array     *)
(*   scratch  a program keeps its last result's array for the next one     *)
(*   slab     results are cut one after the other from a common array      *)
(*   none     the library as it is                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Share, MaxCalls, MaxWrites

Text(s) == [s |-> s, ref |-> 0]
Ref(a) == [s |-> "", ref |-> a]
IsRef(v) == v.ref # 0
Spare == Text("spare")
Slice(a, off, n) == [a |-> a, off |-> off, n |-> n]
(* two documents: arrays 1 (holding 2, 3) and 4; documents are whole arrays *)
Heap0 == << <<Text("x"), Ref(2), Ref(3)>>, <<Text("y"), Text("z")>>, <<>>, <<Ref(2), Text("w"), Text("w")>> >>
DocArrays == 1..4
DocsOf == {1, 4}
(* paths: sequences of steps *)
Progs == { <<"wild">>, <<"tail">>, <<"wild", "wild">>, <<"all">>, <<>>, <<"tail", "wild">>, <<"twice">> }

Cells(h, s) == SubSeq(h[s.a], s.off + 1, s.off + s.n)
Alloc(h, cells) == [h |-> Append(h, cells), a |-> Len(h) + 1]
Fill(n) == [i \in 1..n |-> Spare]
(* Go's append *)
App(h, s, v) ==
  IF s.a # 0 /\ s.off + s.n < Len(h[s.a]) THEN [h |-> [h EXCEPT ![s.a][s.off + s.n + 1] = v], s |-> [s EXCEPT !.n = @ + 1]]
  ELSE LET old == IF s.a = 0 THEN <<>> ELSE Cells(h, s)
           m == Alloc(h, old \o <<v>> \o Fill(Len(old)))           \* room for as many again
       IN [h |-> m.h, s |-> Slice(m.a, 0, Len(old) + 1)]
RECURSIVE AppAll(_, _, _)
AppAll(h, s, vs) == IF vs = <<>> THEN [h |-> h, s |-> s] ELSE LET r == App(h, s, Head(vs)) IN AppAll(r.h, r.s, Tail(vs))

(* what a step selects from a value *)
Kids(h, v) == IF IsRef(v) THEN h[v.ref] ELSE <<>>
Chosen(h, st, v) == CASE st = "wild" -> Kids(h, v)
                      [] st = "tail" -> LET k == Kids(h, v) IN SubSeq(k, 2, Len(k))
                      [] st = "all" -> LET k == Kids(h, v) IN k
                      [] st = "twice" -> Kids(h, v) \o Kids(h, v)
RECURSIVE ChosenAll(_, _, _)
ChosenAll(h, st, vs) == IF vs = <<>> THEN <<>> ELSE Chosen(h, st, Head(vs)) \o ChosenAll(h, st, Tail(vs))
RECURSIVE Meant(_, _, _)
Meant(h, p, vs) == IF p = <<>> THEN vs ELSE Meant(h, Tail(p), ChosenAll(h, Head(p), vs))

(* one step of an evaluation: the list so far is the slice s; empty is where the next is built *)
StepTo(h, st, s, empty) ==
  LET vs == Cells(h, s) one == Len(vs) = 1 /\ IsRef(vs[1]) IN
  IF Share = "wild" /\ st \in {"wild", "all"} /\ one THEN [h |-> h, s |-> Slice(vs[1].ref, 0, Len(h[vs[1].ref]))]
  ELSE IF Share = "slice" /\ st = "tail" /\ one /\ h[vs[1].ref] # <<>> THEN [h |-> h, s |-> Slice(vs[1].ref, 1, Len(h[vs[1].ref]) - 1)]
  ELSE AppAll(h, empty, ChosenAll(h, st, vs))
RECURSIVE Steps(_, _, _, _)
Steps(h, p, s, empty) ==
  IF p = <<>> THEN [h |-> h, s |-> s]
  ELSE LET r == StepTo(h, Head(p), s, IF Tail(p) = <<>> THEN empty ELSE Slice(0, 0, 0)) IN Steps(r.h, Tail(p), r.s, empty)

VARIABLES heap,      \* array -> cells
          lists,     \* results held: call -> slice
          scratch,   \* program -> the array it keeps (0: none)
          slab,      \* the common array and how much of it is used
          wantDoc, wantList, \* what Api says is to be seen
          right,     \* was every result as meant?
          writes
vars == <<heap, lists, scratch, slab, wantDoc, wantList, right, writes>>
Init == /\ heap = (IF Share = "slab" THEN Append(Heap0, Fill(12)) ELSE Heap0)
        /\ lists = <<>> /\ scratch = [p \in Progs |-> 0] /\ slab = [a |-> 5, used |-> 0]
        /\ wantDoc = [a \in DocArrays |-> Heap0[a]] /\ wantList = <<>> /\ right = TRUE /\ writes = 0

Eval(p, d) ==
  LET m == Alloc(heap, <<Ref(d)>>)
      empty == CASE Share = "scratch" /\ scratch[p] # 0 -> Slice(scratch[p], 0, 0)
                 [] Share = "slab" -> Slice(slab.a, slab.used, 0)
                 [] OTHER -> Slice(0, 0, 0)
      r == Steps(m.h, p, Slice(m.a, 0, 1), empty)
      meant == Meant(heap, p, <<Ref(d)>>)
  IN /\ Len(lists) < MaxCalls
     /\ heap' = r.h /\ lists' = Append(lists, r.s)
     /\ scratch' = [scratch EXCEPT ![p] = IF r.s.n > 0 THEN r.s.a ELSE @]
     /\ slab' = IF r.s.a = slab.a THEN [slab EXCEPT !.used = r.s.off + r.s.n] ELSE slab
     /\ right' = (right /\ (IF r.s.a = 0 THEN <<>> ELSE Cells(r.h, r.s)) = meant)
     /\ wantList' = Append(wantList, meant)
     /\ UNCHANGED <<wantDoc, writes>>
(* the caller overwrites an item of its list *)
Write(c, i) ==
  /\ writes < MaxWrites /\ writes' = writes + 1
  /\ i \in 1..lists[c].n
  /\ heap' = [heap EXCEPT ![lists[c].a][lists[c].off + i] = Text("junk")]
  /\ wantList' = [wantList EXCEPT ![c][i] = Text("junk")]
  /\ UNCHANGED <<lists, scratch, slab, wantDoc, right>>
(* or appends to it *)
Extend(c) ==
  /\ writes < MaxWrites /\ writes' = writes + 1
  /\ LET r == App(heap, lists[c], Text("junk")) IN heap' = r.h /\ lists' = [lists EXCEPT ![c] = r.s]
  /\ wantList' = [wantList EXCEPT ![c] = Append(@, Text("junk"))]
  /\ UNCHANGED <<scratch, slab, wantDoc, right>>
(* a document's owner changes it *)
Change(a) ==
  /\ writes < MaxWrites /\ writes' = writes + 1
  /\ heap[a] # <<>>
  /\ heap' = [heap EXCEPT ![a][1] = Text("new")] /\ wantDoc' = [wantDoc EXCEPT ![a][1] = Text("new")]
  /\ UNCHANGED <<lists, scratch, slab, wantList, right>>
Next == \/ \E p \in Progs, d \in DocsOf : Eval(p, d)
        \/ \E c \in 1..Len(lists) : Extend(c) \/ \E i \in 1..lists[c].n : Write(c, i)
        \/ \E a \in DocArrays : Change(a)
Spec == Init /\ [][Next]_vars

Right == right
Seen(s) == IF s.a = 0 THEN <<>> ELSE Cells(heap, s)
DocsKept == \A a \in DocArrays : heap[a] = wantDoc[a]
ListsKept == \A c \in 1..Len(lists) : Seen(lists[c]) = wantList[c]
(* what Api's Look and Held would see *)
Wanted == DocsKept /\ ListsKept
=============================================================================
