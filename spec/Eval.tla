-------------------------------- MODULE Eval --------------------------------
(***************************************************************************)
(* What a path means: the values it selects from a document, as a forest   *)
(* whose leaves are the selected values, whose "seq" nodes are ordered and *)
(* whose "perm" nodes (one child per member of an object) are not.         *)
(***************************************************************************)
EXTENDS Fns, Syntax

W_length == Ascii("length")

(* ------------------------------ access by key ------------------------------ *)
KeyIndex(o, key) == SelectInSeq(o.k, LAMBDA x : x = key)
MemberOf(o, key) == LET i == KeyIndex(o, key) IN IF i = 0 THEN NothingV ELSE o.v[i]
(* element number n (a 64-bit integer Num) of a sequence *)
ElementAt(s, n, fromEnd) ==
  LET big == Len(n.m) > 2
      x == IF n.g = 1 THEN (IF fromEnd THEN Len(s) - BVal(n.m) ELSE -1 - BVal(n.m)) ELSE BVal(n.m)
  IN IF big THEN NothingV
     ELSE IF x >= 0 /\ x < Len(s) THEN s[x + 1] ELSE NothingV
(* e[i] in an expression *)
Indexed(v, i) ==
  IF IsU(v) \/ IsU(i) THEN NothingV
  ELSE IF v.t \in {"a", "K"} THEN
    LET n == CASE i.t = "n" -> Truncated(i)
               [] i.t = "s" -> (IF i.s = <<>> THEN PoisonV ELSE ParseInt(i.s))
               [] i.t = "b" -> PoisonV
               [] OTHER -> Fail
    IN IF n.t = "U" THEN PoisonV
       ELSE IF n = Fail THEN NothingV
       ELSE LET r == ElementAt(v.a, n, TRUE) IN IF v.t = "K" /\ ~IsU(r) THEN PoisonV ELSE r
  ELSE IF v.t = "o" THEN
    CASE i.t \in {"s", "x"} -> MemberOf(v, i.s)
      [] i.t = "n" -> LET n == Truncated(i) IN IF n.t = "U" THEN PoisonV ELSE MemberOf(v, IntText(n))
      [] OTHER -> PoisonV
  ELSE NothingV
Dotted(v, name) ==
  IF IsU(v) THEN NothingV
  ELSE IF name = W_length THEN
    CASE v.t \in {"a", "K"} -> IntN(Len(v.a)) [] v.t = "o" -> IntN(Len(v.k)) [] v.t = "s" -> IntN(RuneCount(v.s)) [] OTHER -> NothingV
  ELSE IF v.t = "o" THEN MemberOf(v, name) ELSE NothingV

(* ------------------------------- operators ------------------------------- *)
Matched(a, b) ==
  IF IsU(a) \/ IsU(b) THEN NothingV
  ELSE IF b.t \notin {"s", "r"} THEN ErrV
  ELSE LET re == ParseRE(b.s) IN
       IF re.ok = "U" THEN PoisonV
       ELSE IF re.ok = "bad" THEN ErrV
       ELSE IF a.t # "s" THEN ErrV
       ELSE LET m == REMatches(re, a.s) IN IF m = "U" THEN PoisonV ELSE BoolV(m = "T")
InArray(op, a, b) ==
  IF IsU(a) \/ IsU(b) THEN NothingV
  ELSE IF b.t \notin {"a", "K"} THEN ErrV
  ELSE LET m == Member(b.a, a) IN IF op = "in" THEN m ELSE NotV(m)
(* a binary operator on values that are neither E nor U *)
Binary(op, a, b) ==
  CASE op = "or" -> IF IsU(a) /\ IsU(b) THEN NothingV ELSE IF Truthy(a) THEN a ELSE b
    [] op = "and" -> IF Truthy(a) THEN b ELSE a
    [] op = "eq" -> Eq(a, b)
    [] op = "ne" -> NotV(Eq(a, b))
    [] op \in {"lt", "le", "gt", "ge"} -> Rel(op, a, b)
    [] op \in {"add", "sub", "mul", "div", "mod"} -> Arith(op, a, b)
    [] op = "match" -> Matched(a, b)
    [] op \in {"in", "nin"} -> InArray(op, a, b)
    [] op = "index" -> Indexed(a, b)
    [] op = "dot" -> Dotted(a, b.s)
Unary(op, a) == CASE op = "neg" -> Neg(a) [] op = "not" -> BoolV(~Truthy(a))
(* an operator applied to evaluated operands (for a call the first is the name); every operand is
   evaluated, whatever the others are, so an error in any of them is an error of the whole *)
AnyStop(vs) == IF \E i \in 1..Len(vs) : vs[i].t = "E" THEN ErrV ELSE PoisonV
OperateOf(op, vs) ==
  IF \E i \in 1..Len(vs) : Stops(vs[i]) THEN
    (IF (\E i \in 1..Len(vs) : vs[i].t = "E") THEN ErrV ELSE PoisonV)
  ELSE CASE op \in {"neg", "not"} -> Unary(op, vs[1])
         [] op = "array" -> ArrV(vs)
         [] op = "call" -> Call(vs[1].s, Tail(vs))
         [] OTHER -> Binary(op, vs[1], vs[2])
OperateFcn[q \in Any] == OperateOf(q.op, q.vs)
Operate(op, vs) == OperateFcn[[op |-> op, vs |-> vs]]
LeafValue(e, root, dot) ==
  CASE e.x \in {"int", "real"} -> e.n
    [] e.x = "str" -> StrV(e.b)
    [] e.x = "id" -> [t |-> "x", s |-> e.b]
    [] e.x = "re" -> [t |-> "r", s |-> e.b]
    [] e.x = "bool" -> BoolV(e.c)
    [] e.x = "null" -> NullV
    [] e.x = "cur" -> dot
    [] e.x = "root" -> root
Value(e0, root, dot) ==
  LET f[e \in Any] == IF e.x = "op" THEN Operate(e.o, TLCEval([i \in 1..Len(e.k) |-> f[e.k[i]]])) ELSE LeafValue(e, root, dot)
  IN f[e0]

(* --------------------------------- slices --------------------------------- *)
(* A bound as a TLC integer, clipped to a range in which it still behaves the same for arrays of length l. *)
Clip(n, l) == LET c == l + l + 4 x == IF Len(n.m) > 2 \/ BVal(n.m) > c THEN c ELSE BVal(n.m) IN IF n.g = 1 THEN -x ELSE x
(* Python's slice.indices *)
SliceIndicesOf(p, l) == \* sequence of 0-based indices
  LET has(i) == p[i].v # "none"
      st == IF has(3) THEN Clip(p[3].n, l) ELSE 1
      lower == IF st < 0 THEN -1 ELSE 0
      upper == IF st < 0 THEN l - 1 ELSE l
      norm(x) == IF x < 0 THEN Max2(x + l, lower) ELSE Min2(x, upper)
      a == IF has(1) THEN norm(Clip(p[1].n, l)) ELSE IF st < 0 THEN upper ELSE lower
      b == IF has(2) THEN norm(Clip(p[2].n, l)) ELSE IF st < 0 THEN lower ELSE upper
      cnt == IF st = 0 THEN 0
             ELSE IF st > 0 THEN (IF a < b THEN (b - a - 1) \div st + 1 ELSE 0)
             ELSE (IF b < a THEN (a - b - 1) \div (-st) + 1 ELSE 0)
  IN TLCEval([i \in 1..cnt |-> a + (i - 1) * st])
SliceFcn[q \in Any] == SliceIndicesOf(q.p, q.l)
SliceIndices(p, l) == SliceFcn[[p |-> p, l |-> l]]
SliceKnown(p) == \A i \in 1..3 : p[i].v \in {"none", "int"}

(* ------------------------------- selection ------------------------------- *)
Leaf(v) == [f |-> "leaf", v |-> v]
SeqF(c) == [f |-> "seq", c |-> c]
PermF(c) == [f |-> "perm", c |-> c]
EmptyF == SeqF(<<>>)
StopF(v) == [f |-> "stop", v |-> v]       \* E or U
OneOrNone(v) == IF IsU(v) THEN EmptyF ELSE Leaf(v)

(* what a selector value selects from v: names and strings members, numbers elements or members *)
Keyed(v, key, fromEnd) ==
  IF v.t = "a" THEN
    IF key.t # "n" THEN EmptyF
    ELSE LET n == Truncated(key) IN IF n.t = "U" THEN StopF(PoisonV) ELSE OneOrNone(ElementAt(v.a, n, fromEnd))
  ELSE IF v.t = "o" THEN
    CASE key.t \in {"s", "x"} -> OneOrNone(MemberOf(v, key.s))
      [] key.t = "n" -> LET n == Truncated(key) IN IF n.t = "U" THEN StopF(PoisonV) ELSE OneOrNone(MemberOf(v, IntText(n)))
      [] OTHER -> StopF(PoisonV)     \* computed key of another type
  ELSE EmptyF
Sliced(v, p) ==
  IF ~SliceKnown(p) THEN (IF v.t = "a" THEN StopF(PoisonV) ELSE EmptyF)
  ELSE IF v.t # "a" THEN EmptyF
  ELSE LET ix == SliceIndices(p, Len(v.a)) IN SeqF(TLCEval([i \in 1..Len(ix) |-> Leaf(v.a[ix[i] + 1])]))
ArgKey(a) == CASE a.v = "int" -> a.n [] a.v = "str" -> StrV(a.b) [] a.v = "id" -> [t |-> "x", s |-> a.b]
Selected(v, a, fromEnd) == IF a.v = "slice" THEN Sliced(v, a.p) ELSE Keyed(v, ArgKey(a), fromEnd)

Children(v) == IF v.t = "a" THEN v.a ELSE IF v.t = "o" THEN v.v ELSE <<>>
Grouped(v, c) == IF v.t = "o" /\ Len(c) > 1 THEN PermF(c) ELSE SeqF(c)
WildF(v) == LET ch == Children(v) IN Grouped(v, TLCEval([i \in 1..Len(ch) |-> Leaf(ch[i])]))
FilterF(v, e, root) ==
  LET ch == Children(v)
      c == TLCEval([i \in 1..Len(ch) |-> LET r == Value(e, root, ch[i]) IN
              IF Stops(r) THEN StopF(r) ELSE IF Truthy(r) THEN Leaf(ch[i]) ELSE EmptyF])
  IN Grouped(v, c)
(* computed subscript: literal-like selection by the value k of its expression *)
ByValue(v, k, fromEnd) == IF Stops(k) THEN StopF(k) ELSE IF IsU(k) THEN EmptyF ELSE Keyed(v, k, fromEnd)

(* one step applied to one value *)
Base(step) == IF step.o \in {"nmember", "nselect", "nunion", "nwild", "nfilter"} THEN SubSeq(step.o, 2, Len(step.o)) ELSE step.o
IsNest(step) == step.o # Base(step)
IsComputed(step) == Base(step) \in {"member", "select"} /\ step.a[1].v = "exp"
(* at: the value @ stands for in a computed subscript *)
ApplyStep(step, v, root, at) ==
  LET o == Base(step) IN
  CASE o \in {"member", "select"} ->
         IF step.a[1].v = "exp" THEN ByValue(v, Value(step.a[1].e, root, at), o = "select")
         ELSE Selected(v, step.a[1], o = "select")
    [] o = "union" -> SeqF(TLCEval([i \in 1..Len(step.a) |-> Selected(v, step.a[i], TRUE)]))
    [] o = "wild" -> WildF(v)
    [] o = "filter" -> FilterF(v, step.a[1].e, root)
(* descent: the step at v and then at everything nested in it *)
Descend(step, v0, root) ==
  LET here(v) == IF Base(step) = "filter"
                 THEN LET r == Value(step.a[1].e, root, v) IN IF Stops(r) THEN StopF(r) ELSE IF Truthy(r) THEN Leaf(v) ELSE EmptyF
                 ELSE ApplyStep(step, v, root, v)
      f[v \in Any] == IF ~IsContainer(v) THEN EmptyF
                      ELSE LET ch == Children(v) IN SeqF(<<here(v), Grouped(v, TLCEval([i \in 1..Len(ch) |-> f[ch[i]]]))>>)
  IN f[v0]

(* forests: substitution at the leaves, flattening, errors *)
(* what a step makes of one selected value; k is the value of a plain computed subscript *)
AtLeaf(step, v, root, k) ==
  IF IsNest(step) THEN Descend(step, v, root)
  ELSE IF IsComputed(step) THEN ByValue(v, k, step.o = "select")
  ELSE ApplyStep(step, v, root, NullV)
MapF(f0, step, root, k) ==
  LET g[f \in Any] ==
        IF f.f = "leaf" THEN AtLeaf(step, f.v, root, k)
        ELSE IF f.f = "stop" THEN f
        ELSE [f |-> f.f, c |-> TLCEval([i \in 1..Len(f.c) |-> g[f.c[i]]])]
  IN g[f0]
Norm(f0) == \* drop empty nodes, splice seq in seq, unwrap single children
  LET g[f \in Any] ==
        IF f.f \in {"leaf", "stop"} THEN f
        ELSE LET c0 == TLCEval([i \in 1..Len(f.c) |-> g[f.c[i]]])
                 c == FoldLeft(LAMBDA acc, x : IF x.f = "seq" /\ (f.f = "seq" \/ x.c = <<>>) THEN acc \o x.c ELSE Append(acc, x), <<>>, c0)
             IN IF Len(c) = 1 THEN c[1] ELSE [f |-> f.f, c |-> c]
  IN g[f0]
Stopped(f0) ==
  LET g[f \in Any] == CASE f.f = "leaf" -> {} [] f.f = "stop" -> {f.v.t}
                        [] OTHER -> UNION { g[f.c[i]] : i \in 1..Len(f.c) }
  IN g[f0]

(* the result of a path: a forest, or a stop node *)
Finish(f) == LET s == Stopped(f) IN IF s = {} THEN Norm(f) ELSE IF "U" \in s THEN StopF(PoisonV) ELSE StopF(ErrV)
StepResult(f, step, root) ==
  IF f.f = "stop" THEN f
  ELSE LET k == IF IsComputed(step) /\ ~IsNest(step) THEN Value(step.a[1].e, root, NullV) ELSE NullV
       IN IF Stops(k) THEN StopF(k)      \* evaluated once, even when there is nothing to select from
          ELSE Finish(MapF(f, step, root, k))
Result(path, doc) == FoldLeft(LAMBDA f, st : StepResult(f, st, doc), Leaf(doc), path)

(* ------------------ does a list of values agree with a forest? ------------------ *)
SizeF(f0) == LET g[f \in Any] == IF f.f = "leaf" THEN 1 ELSE FoldLeft(LAMBDA n, x : n + g[x], 0, f.c) IN g[f0]
RECURSIVE Fits(_, _, _), FitsSeq(_, _, _, _), FitsPerm(_, _, _)
Count(s, v) == Cardinality({ i \in 1..Len(s) : s[i] = v })
Fits(f, L, i) == \* the values of L from position i on are a reading of f
  IF f.f = "leaf" THEN i <= Len(L) /\ L[i] = f.v
  ELSE IF i + SizeF(f) - 1 > Len(L) THEN FALSE
  ELSE IF f.f = "seq" THEN FitsSeq(f.c, 1, L, i)
  ELSE IF \A j \in 1..Len(f.c) : f.c[j].f = "leaf" THEN
    LET vs == TLCEval([j \in 1..Len(f.c) |-> f.c[j].v])
        ws == SubSeq(L, i, i + Len(vs) - 1)
    IN \A j \in 1..Len(vs) : Count(vs, vs[j]) = Count(ws, vs[j])
  ELSE FitsPerm(f.c, L, i)
FitsSeq(c, j, L, i) ==
  IF \A m \in j..Len(c) : c[m].f = "leaf" THEN \A m \in j..Len(c) : L[i + m - j] = c[m].v
  ELSE Fits(c[j], L, i) /\ FitsSeq(c, j + 1, L, i + SizeF(c[j]))
FitsPerm(c, L, i) ==
  c = <<>> \/ \E j \in 1..Len(c) :
    /\ \A m \in 1..(j - 1) : c[m] # c[j]          \* equal children are interchangeable
    /\ Fits(c[j], L, i)
    /\ FitsPerm(SubSeq(c, 1, j - 1) \o SubSeq(c, j + 1, Len(c)), L, i + SizeF(c[j]))
Reads(f, L) == SizeF(f) = Len(L) /\ Fits(f, L, 1)

(* every reading of a forest (small forests only) *)
RECURSIVE Readings(_), ReadSeq(_), ReadPerm(_)
Readings(f) == IF f.f = "leaf" THEN { <<f.v>> } ELSE IF f.f = "seq" THEN ReadSeq(f.c) ELSE ReadPerm(f.c)
ReadSeq(c) == IF c = <<>> THEN { <<>> } ELSE { a \o b : a \in Readings(Head(c)), b \in ReadSeq(Tail(c)) }
ReadPerm(c) == IF c = <<>> THEN { <<>> }
               ELSE UNION { { a \o b : a \in Readings(c[j]), b \in ReadPerm(SubSeq(c, 1, j - 1) \o SubSeq(c, j + 1, Len(c))) } : j \in 1..Len(c) }
=============================================================================
