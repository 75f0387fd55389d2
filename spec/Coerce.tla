------------------------------- MODULE Coerce -------------------------------
(***************************************************************************)
(* Values of expressions and the operators on them.                        *)
(*   "z" null   "b" boolean (b)   "n" number   "s" string (s: bytes)       *)
(*   "a" array (a: sequence)      "o" object (k: keys in byte order, v)    *)
(*   "u" nothing: missing, or a failed operation                           *)
(*   "x" a bare name (s)   "r" a regular expression (s)                    *)
(*   "K" the keys of an object: an array whose order is unspecified        *)
(*   "U" unspecified: the specification says nothing about this value      *)
(*   "E" evaluation has failed with a run-time error                       *)
(***************************************************************************)
EXTENDS Num
NullV == [t |-> "z"]
BoolV(b) == [t |-> "b", b |-> b]
TrueV == BoolV(TRUE)
FalseV == BoolV(FALSE)
StrV(s) == [t |-> "s", s |-> s]
ArrV(a) == [t |-> "a", a |-> a]
ErrV == [t |-> "E"]
IsU(v) == v.t = "u"
Stops(v) == v.t \in {"U", "E"}
IsContainer(v) == v.t \in {"a", "o"}

Truthy(v) == CASE v.t \in {"z", "u"} -> FALSE
               [] v.t = "b" -> v.b
               [] v.t = "n" -> v.k = "inf" \/ (v.k # "nan" /\ v.m # <<>>)
               [] v.t = "s" -> v.s # <<>>
               [] OTHER -> TRUE

(* conversions *)
ToInt(v) == \* 64-bit integer, or U
  CASE v.t = "b" -> IF v.b THEN IntN(1) ELSE IntN(0)
    [] v.t = "n" -> Truncated(v)
    [] v.t = "s" -> LET p == ParseInt(v.s) IN IF p = Fail THEN IntN(0) ELSE p
    [] v.t = "U" -> v
    [] OTHER -> IntN(0)
BoolN(b) == IntN(IF b THEN 1 ELSE 0)
IsArith(v) == v.t \in {"n", "b"}
AsNum(v) == IF v.t = "b" THEN BoolN(v.b) ELSE v          \* of an IsArith value
AsFlt(v) == ToFlt(AsNum(v))

(* == : TRUE, FALSE as values, or U *)
NumEq(a, b) == \* numbers
  IF a.k = "i" /\ b.k = "i" THEN a = b
  ELSE LET x == ToFlt(a) y == ToFlt(b) IN
       IF x.k = "nan" \/ y.k = "nan" THEN FALSE
       ELSE IF IsZeroN(x) \/ IsZeroN(y) THEN IsZeroN(x) /\ IsZeroN(y) ELSE x = y
(* without the white space of Unicode at its ends, which JavaScript ignores in a number *)
Spaces == (9..13) \cup (8192..8202) \cup {32, 160, 5760, 8232, 8233, 8239, 8287, 12288, 65279}
Trim(s) == LET rs == RunesOf(s)
               a == SelectInSeq(rs, LAMBDA q : q.r \notin Spaces) b == SelectLastInSeq(rs, LAMBDA q : q.r \notin Spaces)
           IN IF a = 0 THEN <<>> ELSE SubSeq(s, rs[a].at, rs[b].at + rs[b].w - 1)
(* a string as a number: exact integer if it spells one and the other side is an integer or boolean *)
StrNumEq(n, s) ==
  IF s = <<>> THEN BoolV(IsZeroN(n))
  ELSE IF Trim(s) # s THEN (IF Trim(s) # <<>> /\ ParseFloat(Trim(s)) = Fail THEN FalseV ELSE PoisonV)
  ELSE LET i == ParseInt(s) f == ParseFloat(s) IN
       IF n.k = "i" /\ i # Fail THEN BoolV(n = i)
       ELSE IF f = PoisonV THEN PoisonV
       ELSE IF f = Fail THEN FalseV
       ELSE BoolV(NumEq(ToFlt(n), f))
JsType(v) == CASE v.t = "u" -> "undefined" [] v.t = "z" -> "null" [] v.t = "n" -> "number"
               [] v.t = "s" -> "string" [] v.t = "b" -> "boolean" [] OTHER -> "object"
(* what stands for an array in a comparison with a primitive *)
NoPrim == [t |-> "none"]
RECURSIVE ArrayPrim(_)
ArrayPrim(v) ==
  IF v.t # "a" THEN NoPrim
  ELSE IF Len(v.a) = 0 THEN StrV(<<>>)
  ELSE IF Len(v.a) > 1 THEN NoPrim
  ELSE LET el == v.a[1] IN
       CASE el.t = "z" -> StrV(<<>>)
         [] el.t = "a" -> ArrayPrim(el)
         [] el.t \in {"o", "x", "r"} -> NoPrim
         [] el.t \in {"u", "K"} -> PoisonV
         [] OTHER -> el
TextOfPrim(p) == CASE p.t = "s" -> p
                   [] p.t = "b" -> StrV(Ascii(IF p.b THEN "true" ELSE "false"))
                   [] p.t = "n" -> IF p.k = "i" THEN StrV(IntText(p)) ELSE FltText(p)
                   [] OTHER -> PoisonV
(* conjunction of a sequence of TrueV, FalseV, U: U only if nothing decides *)
AllV(s) == IF \E i \in 1..Len(s) : s[i] = FalseV THEN FalseV
           ELSE IF \E i \in 1..Len(s) : s[i].t = "U" THEN PoisonV ELSE TrueV
RECURSIVE Eq(_, _)
Eq(a, b) ==
  LET ta == JsType(a) tb == JsType(b) IN
  IF a.t = "U" \/ b.t = "U" THEN PoisonV
  ELSE IF ta = tb THEN
    CASE ta \in {"undefined", "null"} -> TrueV
      [] ta = "number" -> BoolV(NumEq(a, b))
      [] ta = "string" -> BoolV(a.s = b.s)
      [] ta = "boolean" -> BoolV(a.b = b.b)
      [] OTHER ->
           IF a.t = "a" /\ b.t = "a" THEN
             IF Len(a.a) # Len(b.a) THEN FalseV ELSE AllV(TLCEval([i \in 1..Len(a.a) |-> Eq(a.a[i], b.a[i])]))
           ELSE IF a.t = "o" /\ b.t = "o" THEN
             IF a.k # b.k THEN FalseV ELSE AllV(TLCEval([i \in 1..Len(a.v) |-> Eq(a.v[i], b.v[i])]))
           ELSE IF "K" \in {a.t, b.t} /\ {a.t, b.t} \subseteq {"K", "a"} THEN
             IF Len(a.a) # Len(b.a) THEN FalseV ELSE PoisonV
           ELSE FalseV
  ELSE CASE {ta, tb} = {"undefined", "null"} -> TrueV
         [] {ta, tb} = {"number", "string"} -> IF ta = "number" THEN StrNumEq(a, b.s) ELSE StrNumEq(b, a.s)
         [] {ta, tb} = {"number", "boolean"} -> IF ta = "number" THEN BoolV(NumEq(a, BoolN(b.b))) ELSE BoolV(NumEq(BoolN(a.b), b))
         [] {ta, tb} = {"string", "boolean"} -> LET s == IF ta = "string" THEN a.s ELSE b.s
                                                    c == IF ta = "string" THEN b.b ELSE a.b
                                                IN StrNumEq(ToFlt(BoolN(c)), s)
         [] "object" \in {ta, tb} /\ {ta, tb} \cap {"undefined", "null"} = {} ->
              LET o == IF ta = "object" THEN a ELSE b
                  q == IF ta = "object" THEN b ELSE a
                  p == IF o.t = "K" THEN PoisonV ELSE ArrayPrim(o)
              IN IF p = NoPrim THEN FalseV
                 ELSE IF p.t = "U" THEN PoisonV
                 ELSE IF q.t = "s" THEN LET x == TextOfPrim(p) IN IF x.t = "U" THEN PoisonV ELSE BoolV(x.s = q.s)
                 ELSE Eq(p, q)
         [] OTHER -> FalseV
NotV(v) == IF v.t = "U" THEN v ELSE BoolV(~Truthy(v))

(* relational operators; op in {"lt","le","ge","gt"} *)
RelOf(op, c) == CASE op = "lt" -> c < 0 [] op = "le" -> c <= 0 [] op = "ge" -> c >= 0 [] op = "gt" -> c > 0
Simple(v) == v.t \in {"b", "n", "s"}
Rel(op, a, b) ==
  IF IsU(a) \/ IsU(b) THEN NothingV
  ELSE IF ~Simple(a) \/ ~Simple(b) THEN FalseV
  ELSE IF a.t = "s" \/ b.t = "s" THEN
    IF a.t # b.t THEN FalseV ELSE BoolV(RelOf(op, CmpBytes(a.s, b.s)))
  ELSE LET x == AsNum(a) y == AsNum(b) IN
    IF x.k = "nan" \/ y.k = "nan" THEN FalseV
    ELSE IF x.k = "i" /\ y.k = "i" THEN BoolV(RelOf(op, ICmp(x, y)))
    ELSE BoolV(RelOf(op, FCmp(ToFlt(x), ToFlt(y))))

(* arithmetic *)
IntOp(op, x, y) == CASE op = "add" -> IAdd(x, y) [] op = "sub" -> ISub(x, y) [] op = "mul" -> IMul(x, y)
                     [] op = "div" -> IQuo(x, y) [] op = "mod" -> IRem(x, y)
FltOp(op, x, y) == CASE op = "add" -> FAdd(x, y) [] op = "sub" -> FSub(x, y) [] op = "mul" -> FMul(x, y)
                     [] op = "div" -> FDiv(x, y) [] op = "mod" -> FMod(x, y)
Arith(op, a, b) ==
  IF ~IsArith(a) \/ ~IsArith(b) THEN NothingV
  ELSE LET x == AsNum(a) y == AsNum(b) IN
    IF op \in {"div", "mod"} /\ IsZeroN(y) THEN NothingV
    ELSE IF x.k = "i" /\ y.k = "i" THEN IntOp(op, x, y) ELSE FltOp(op, ToFlt(x), ToFlt(y))
Neg(v) == IF IsU(v) THEN NothingV
          ELSE IF v.t = "n" /\ v.k # "i" THEN FNeg(v)
          ELSE INeg(ToInt(v))

(* membership: is some element equal to v?  TrueV, FalseV or U *)
Member(els, v) ==
  LET es == TLCEval([i \in 1..Len(els) |-> Eq(els[i], v)]) IN
  IF \E i \in 1..Len(es) : es[i] = TrueV THEN TrueV
  ELSE IF \E i \in 1..Len(es) : es[i].t = "U" THEN PoisonV ELSE FalseV
=============================================================================
