------------------------------ MODULE Machine ------------------------------
(***************************************************************************)
(* How the library evaluates: a path is compiled to orders for a stack     *)
(* machine; filters and descents loop over values that a producer process  *)
(* sends one at a time over an unbuffered channel; an error ends the run.  *)
(* Every run, whatever the interleaving and the order of objects' members, *)
(* ends with a reading of what Eval says the path means, and leaves no     *)
(* producer behind; runs of one program do not disturb each other.         *)
(* Bug names a way to get it wrong (each is found by the model checker):   *)
(*   phantom  a loop with nothing to visit runs its body once, with null   *)
(*   nodrain  a run that fails does not let its producer end               *)
(*   shared   the runs of one program share a stack                        *)
(*   keepout  a loop's body sees the values selected before                *)
(*   endpc    a loop is left one order too late                            *)
(***************************************************************************)
EXTENDS JsonText
CONSTANTS Clients, Cases, Bug
\* Cases: number of a set of (path, document) pairs, below

(* ------------------------------ compilation ------------------------------ *)
Order(o, n, v) == [o |-> o, n |-> n, v |-> v]
RECURSIVE CodeExpr(_), CodeExprs(_)
CodeExpr(e) ==
  IF e.x = "op" THEN CodeExprs(e.k) \o <<Order("op", Len(e.k), [op |-> e.o])>>
  ELSE <<Order("leaf", 0, e)>>
CodeExprs(es) == IF es = <<>> THEN <<>> ELSE CodeExpr(Head(es)) \o CodeExprs(Tail(es))
CodeArg(a) == IF a.v = "exp" THEN CodeExpr(a.e) ELSE <<Order("const", 0, a)>>
CodeArgs(as) == FoldLeft(LAMBDA acc, a : acc \o CodeArg(a), <<>>, as)
CodeStep(st) == CodeArgs(st.a) \o <<Order(st.o, Len(st.a), NullV)>>
(* at: orders before this one *)
CodeLoop(st, at) ==
  LET body == CodeStep(st)
      end == at + Len(body) + 3            \* the order after the loop
  IN <<Order(IF st.o = "filter" THEN "for" ELSE "nest", IF Bug = "endpc" THEN end + 1 ELSE end, NullV)>>
     \o body \o <<Order("rep", at + 2, NullV)>>
Code(path) == FoldLeft(LAMBDA acc, st : acc \o (IF st.o = "filter" \/ IsNest(st) THEN CodeLoop(st, Len(acc)) ELSE CodeStep(st)), <<>>, path)

(* --------------------------------- cases --------------------------------- *)
Pair(p, d) == [path |-> ParsePath(Ascii(p)).e, doc |-> Doc(d), prog |-> Code(ParsePath(Ascii(p)).e)]
Docs1 == { "null", "1", "[]", "{}", "[1,[2],{'a':3}]", "{'a':[1,2],'b':{'a':null}}", "[[],{'a':0},[{'a':[]}]]", "{'a':{'a':{'b':1}},'s':'ab'}" }
Paths1 == { "$", "$.a", "$[*]", "$..a", "$..*", "$..[0]", "$..[-1,'a']", "$..[?(@.a)]", "$[?(@)]", "$[?(!@)]", "$..[?(@.length > 1)]..a", "$[*][?(@.a)]..a",
            "$.zz..a", "$.zz[?(true)]", "$.a[(1)]", "$..[(@.length-1)]", "$[?(@ =~ 'a')]", "$..[?(@.s =~ /b/)]", "$[?(@ in $.a)]", "$[?(nosuch())]", "$.zz[?(nosuch())]",
            "$[?(@.a || nosuch())]", "$[0,0][?(@ == 2 || @.a)]", "$..[?(@[0])][::-1]", "$[?(@.a)][?(@)]", "$.a[($.b)]", "$[('a')]..[?(@ < 3)]", "$[?([@,1] == @)]", "$.*.*", "$..*..*" }
Docs2 == { "[1,[2],{'a':3}]", "{'a':[1,2],'b':{'a':1}}" }
Paths2 == { "$..a", "$[?(@.a || @ == 1)]", "$[?(@ =~ 'a')]", "$..[?(1 + (2 + @.length) > 4)]" }
Quoted(s) == FoldLeft(LAMBDA acc, i : acc \o (IF SubSeq(s, i, i) = "'" THEN "\"" ELSE SubSeq(s, i, i)), "", [i \in 1..Len(s) |-> i])
Set1 == { Pair(p, Quoted(d)) : p \in Paths1, d \in Docs1 }
Set2 == { Pair(p, Quoted(d)) : p \in Paths2, d \in Docs2 }
Set3 == { Pair("$[?(@ + 1 == 2)]", d) : d \in {"[1,2]", "[3]"} }
(* those the specification says everything about *)
Known(S) == { x \in S : LET R == Result(x.path, x.doc) IN R.f # "stop" \/ R.v.t = "E" }
CaseSet == TLCEval(Known(CASE Cases = 1 -> Set1 [] Cases = 2 -> Set2 [] Cases = 3 -> Set3))

(* ---------------------------------- state ---------------------------------- *)
VARIABLES cl,   \* client -> its machine
          pr,   \* client -> its producers, a sequence (of which at most the last is of the current loop)
          stk   \* owner -> stack
vars == <<cl, pr, stk>>
Owner(c) == IF Bug = "shared" THEN CHOOSE x \in Clients : TRUE ELSE c
Stack(c) == stk[Owner(c)]
Fresh(x) == [st |-> "run", x |-> x, pc |-> 1, out |-> <<x.doc>>, dot |-> NullV, chans |-> <<>>]
Init == /\ \E x \in CaseSet : cl \in [Clients -> { Fresh(y) : y \in { z \in CaseSet : Cardinality(Clients) = 1 \/ z.path = x.path } }]
        /\ pr = [c \in Clients |-> <<>>]
        /\ stk = [c \in Clients |-> <<>>]

(* A producer: frames still to be done, the last first.  A frame: values (any = in any order), and what is to be
   done with each: "step" send its children; "send" send it; "walk" send it and walk its containers. *)
Frame(w, vs, any) == [w |-> w, vs |-> vs, any |-> any]
Live(p) == p.fr # <<>>
Rest(f, i) == [f EXCEPT !.vs = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))]
Containers(v) == SelectSeq(Children(v), IsContainer)
(* what a producer with these frames may do until it next sends: a set of [v, fr], or {} if it has come to its end *)
RECURSIVE Sends(_)
Sends(fr) ==
  IF fr = <<>> THEN {}
  ELSE LET top == fr[Len(fr)] below == SubSeq(fr, 1, Len(fr) - 1) IN
       IF top.vs = <<>> THEN Sends(below)
       ELSE UNION { LET v == top.vs[i] now == Append(below, Rest(top, i)) IN
                    CASE top.w = "send" -> { [v |-> v, fr |-> now] }
                      [] top.w = "walk" -> { [v |-> v, fr |-> Append(now, Frame("walk", Containers(v), v.t = "o"))] }
                      [] top.w = "step" -> Sends(Append(now, Frame("send", Children(v), v.t = "o")))
                    : i \in (IF top.any THEN 1..Len(top.vs) ELSE {1}) }

Set(c, m) == cl' = [cl EXCEPT ![c] = m]
Push(c, s, v) == stk' = [stk EXCEPT ![Owner(c)] = Append(s, v)]
PopN(s, n) == SubSeq(s, 1, Len(s) - n)
TopN(s, n) == SubSeq(s, Len(s) - n + 1, Len(s))
Fail1(c) == Set(c, [cl[c] EXCEPT !.st = IF cl[c].chans = <<>> THEN "error" ELSE IF Bug = "nodrain" THEN "error" ELSE "drain"])

Key(k) == IF k.t = "arg" THEN k.a ELSE [v |-> "val", k |-> k]
SelectedBy(v, k, fromEnd) == IF k.t = "arg" THEN Selected(v, k.a, fromEnd) ELSE ByValue(v, k, fromEnd)
(* the forest a step that is not a loop makes of one value, with operands ks *)
StepOf(o, v, ks) ==
  CASE o \in {"member", "select"} -> SelectedBy(v, ks[1], o = "select")
    [] o = "union" -> SeqF([i \in 1..Len(ks) |-> SelectedBy(v, ks[i], TRUE)])
    [] o = "wild" -> WildF(v)
Lists(f) == LET n == Norm(f) IN Readings(n)

Exec(c) ==
  LET m == cl[c] ord == m.x.prog[m.pc] s == Stack(c) next == [m EXCEPT !.pc = @ + 1] IN
  /\ m.st = "run" /\ m.pc <= Len(m.x.prog)
  /\ \/ /\ ord.o \in {"leaf", "const"}
        /\ Push(c, s, IF ord.o = "const" THEN [t |-> "arg", a |-> ord.v] ELSE LeafValue(ord.v, m.x.doc, m.dot))
        /\ Set(c, next) /\ UNCHANGED pr
     \/ /\ ord.o = "op" /\ Len(s) >= ord.n
        /\ LET r == Operate(ord.v.op, TopN(s, ord.n)) IN
           IF r.t = "E" THEN Fail1(c) /\ UNCHANGED <<pr, stk>>
           ELSE Push(c, PopN(s, ord.n), r) /\ Set(c, next) /\ UNCHANGED pr
     \/ /\ ord.o \in {"member", "select", "union", "wild"} /\ Len(s) >= ord.n
        /\ \E out \in Lists(SeqF([i \in 1..Len(m.out) |-> StepOf(ord.o, m.out[i], TopN(s, ord.n))])) : Set(c, [next EXCEPT !.out = out])
        /\ stk' = [stk EXCEPT ![Owner(c)] = PopN(s, ord.n)] /\ UNCHANGED pr
     \/ /\ ord.o \in {"nmember", "nselect", "nunion", "nwild"} /\ Len(s) >= ord.n
        /\ \E out \in Lists(StepOf(SubSeq(ord.o, 2, Len(ord.o)), m.dot, TopN(s, ord.n))) : Set(c, [next EXCEPT !.out = @ \o out])
        /\ stk' = [stk EXCEPT ![Owner(c)] = PopN(s, ord.n)] /\ UNCHANGED pr
     \/ /\ ord.o \in {"filter", "nfilter"} /\ Len(s) >= 1
        /\ Set(c, [next EXCEPT !.out = IF Truthy(s[Len(s)]) THEN Append(@, m.dot) ELSE @])
        /\ stk' = [stk EXCEPT ![Owner(c)] = PopN(s, 1)] /\ UNCHANGED pr
     \/ /\ ord.o \in {"for", "nest"}
        /\ IF m.out = <<>> /\ Bug # "phantom" THEN Set(c, [m EXCEPT !.pc = ord.n]) /\ UNCHANGED <<pr, stk>>
           ELSE LET vs == IF ord.o = "nest" THEN SelectSeq(m.out, IsContainer) ELSE m.out
                    fr == <<Frame(IF ord.o = "nest" THEN "walk" ELSE "step", vs, FALSE)>>
                IN /\ pr' = [pr EXCEPT ![c] = Append(@, [fr |-> fr])]
                   /\ Set(c, [m EXCEPT !.chans = Append(@, Len(pr[c]) + 1), !.st = "first", !.out = IF Bug = "keepout" THEN @ ELSE <<>>])
                   /\ UNCHANGED stk
     \/ ord.o = "rep" /\ Set(c, [m EXCEPT !.st = "next"]) /\ UNCHANGED <<pr, stk>>

(* the machine waits for a value: the producer sends one, or has ended *)
Receive(c) ==
  LET m == cl[c] ch == m.chans[Len(m.chans)] ord == m.x.prog[m.pc] IN
  /\ m.st \in {"first", "next"}
  /\ UNCHANGED stk
  /\ \/ \E w \in Sends(pr[c][ch].fr) :
          /\ pr' = [pr EXCEPT ![c][ch].fr = w.fr]
          /\ Set(c, [m EXCEPT !.st = "run", !.dot = w.v, !.pc = IF m.st = "first" THEN @ + 1 ELSE ord.n])
     \/ /\ Sends(pr[c][ch].fr) = {}
        /\ pr' = [pr EXCEPT ![c][ch].fr = <<>>]
        /\ IF m.st = "first" /\ Bug = "phantom" THEN Set(c, [m EXCEPT !.st = "run", !.dot = NullV, !.pc = @ + 1])
           ELSE Set(c, [m EXCEPT !.st = "run", !.dot = NullV, !.chans = SubSeq(@, 1, Len(@) - 1),
                                 !.pc = IF m.st = "first" THEN ord.n ELSE @ + 1])
(* after an error: let the producers end *)
Drain(c) ==
  LET m == cl[c] ch == m.chans[Len(m.chans)] IN
  /\ m.st = "drain"
  /\ UNCHANGED stk
  /\ \/ \E w \in Sends(pr[c][ch].fr) : pr' = [pr EXCEPT ![c][ch].fr = w.fr] /\ UNCHANGED cl
     \/ /\ Sends(pr[c][ch].fr) = {}
        /\ pr' = [pr EXCEPT ![c][ch].fr = <<>>]
        /\ Set(c, [m EXCEPT !.chans = SubSeq(@, 1, Len(@) - 1), !.st = IF Len(m.chans) = 1 THEN "error" ELSE "drain"])
Halt(c) == LET m == cl[c] IN
  /\ m.st = "run" /\ m.pc > Len(m.x.prog)
  /\ Set(c, [m EXCEPT !.st = "ok"]) /\ UNCHANGED <<pr, stk>>
Over == \A c \in Clients : cl[c].st \in {"ok", "error"}
Rests == Over /\ UNCHANGED vars
Step1(c) == Exec(c) \/ Receive(c) \/ Drain(c) \/ Halt(c)
MNext == (\E c \in Clients : Step1(c)) \/ Rests
Spec == Init /\ [][MNext]_vars /\ \A c \in Clients : WF_vars(Step1(c))

(* ------------------------------- properties ------------------------------- *)
(* a run ends as its path means *)
Meaning == \A c \in Clients :
  LET m == cl[c] R == Result(m.x.path, m.x.doc) IN
  /\ m.st = "ok" => R.f # "stop" /\ Reads(R, m.out)
  /\ m.st \in {"error", "drain"} => R.f = "stop"
(* and leaves nothing behind *)
NoProducers == \A c \in Clients : cl[c].st \in {"ok", "error"} =>
  /\ \A i \in 1..Len(pr[c]) : ~Live(pr[c][i])
  /\ (cl[c].st = "ok" => cl[c].chans = <<>> /\ (Bug # "shared" => stk[c] = <<>>))
(* the program counter is always at an order, or just after the last *)
Counter == \A c \in Clients : cl[c].pc \in 1..(Len(cl[c].x.prog) + 1)
(* the stack holds what an order takes (otherwise Exec would be stuck), and outside loops only the live one's producer sends *)
Balanced == Bug # "shared" => \A c \in Clients :
  /\ cl[c].st = "run" /\ cl[c].pc <= Len(cl[c].x.prog) => Len(stk[c]) >= (IF cl[c].x.prog[cl[c].pc].o \in {"for", "nest", "rep", "leaf", "const"} THEN 0 ELSE cl[c].x.prog[cl[c].pc].n)
  /\ Len(cl[c].chans) <= 1
  /\ \A i \in 1..Len(pr[c]) : Live(pr[c][i]) => cl[c].st = "error" \/ i \in { cl[c].chans[j] : j \in 1..Len(cl[c].chans) }
Finishes == <>Over
=============================================================================
