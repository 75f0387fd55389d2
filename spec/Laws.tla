-------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* The specification checked against itself: laws that its definitions     *)
(* must obey, each over every combination of small or awkward operands,    *)
(* and definitions made twice, here from another angle (RFC 9535 for       *)
(* slices, denotations for regular expressions, a printer for the parser). *)
(* A check of a property runs the laws of the parts that decide it.        *)
(***************************************************************************)
EXTENDS JsonText
CONSTANT Part

VARIABLES a, b, st     \* operands: a is chosen first, then b
vars == <<a, b, st>>

I(n) == IntN(n)
Big(s) == ParseInt(Ascii(s))
D(s) == ParseFloat(Ascii(s))
S1(s) == StrV(Ascii(s))
Ints == { I(n) : n \in {0, 1, -1, 2, -2, 3, 7, -7, 10, 100, 4095, 4096, 4097, -4096, 65535, 16777216, 2147483647, -2147483647} } \cup
        { Big(s) : s \in {"2147483648", "4294967295", "4294967296", "4294967297", "-4294967296", "9007199254740991", "9007199254740992", "9007199254740993",
                          "-9007199254740993", "999999999999999999", "1000000000000000000", "4611686018427387904", "4611686018427387903", "3037000500",
                          "9223372036854775806", "9223372036854775807", "-9223372036854775807", "-9223372036854775808", "-4611686018427387905", "6700417", "281474976710655"} }
Flts == { D(s) : s \in {"0", "-0", "1", "-1", "2", "0.5", "-0.5", "1.5", "2.5", "0.1", "0.2", "0.3", "-0.1", "3.0000000000000004", "1e21", "1e22", "1e23", "123456789012345680000", "1e-6", "1e-7", "1.5e-7",
                        "9007199254740992", "9007199254740994", "9223372036854775808", "-9223372036854775808", "1e300", "-1e300", "1e308", "1.7976931348623157e308", "5e-324", "-5e-324", "2.2250738585072014e-308",
                        "2.225073858507201e-308", "4.35", "0.000001", "1e100", "72057594037927945", "5.0e-324", "1.7976931348623155e308", "100", "1e-300", "0.1e1"} } \cup { Inf(0), Inf(1), NaN }
Nums == Ints \cup Flts
Strs == { S1(s) : s \in {"", "0", "1", "-1", "01", "1.0", "1.5", "1e0", "0.5", "a", "ab", "b", "A", "true", "false", "null", " 1", "-0", "9223372036854775807", "9223372036854775808",
                         "9007199254740993", "9007199254740992", "+1", ".5", "1e999", "1,2"} }
Flat == { NullV, NothingV, TrueV, FalseV, I(0), I(1), I(-1), I(2), D("0"), D("-0"), D("1"), D("1.5"), D("-1"), NaN, Inf(0), Big("9007199254740993"), D("9007199254740992"), Big("9223372036854775807"), D("9223372036854775808") } \cup
        { S1(s) : s \in {"", "0", "1", "1.5", "a", "ab", "b", "true", "false", "null", " 1", "9007199254740993"} }
Obj(k, v) == [t |-> "o", k |-> k, v |-> v]
Nested == { ArrV(<<>>), Obj(<<>>, <<>>) } \cup { ArrV(<<x>>) : x \in Flat \ {NothingV} } \cup { Obj(<<Ascii("a")>>, <<x>>) : x \in {NullV, I(1), D("1"), NaN, S1("1")} } \cup
          { ArrV(<<x, y>>) : x, y \in {NullV, I(1), D("1"), S1("1"), NaN} } \cup { ArrV(<<ArrV(<<x>>)>>) : x \in {NullV, I(1), S1("1"), S1("a")} } \cup
          { Obj(<<Ascii("b")>>, <<I(1)>>), Obj(<<Ascii("a"), Ascii("b")>>, <<I(1), D("1")>>), ArrV(<<Obj(<<>>, <<>>)>>), ArrV(<<ArrV(<<>>)>>), ArrV(<<I(1), I(1), I(1)>>) }
Values == Flat \cup Nested

(* -------------------------------- arithmetic -------------------------------- *)
WellFormed(v) == CASE v.t # "n" -> TRUE
                   [] v.k = "i" -> v.e = 0 /\ (v.m = <<>> => v.g = 0) /\ FitsInt64(v.g, v.m)
                   [] v.k = "f" -> IF v.m = <<>> THEN v.e = 0 ELSE BOdd(v.m) /\ BBitLen(v.m) <= 53 /\ BBitLen(v.m) + v.e <= 1024 /\ v.e >= -1074
                   [] OTHER -> v.m = <<>> /\ v.e = 0
SameNum(x, y) == x = y \/ (x.k \in {"f", "inf"} /\ IsZeroN(x) /\ IsZeroN(y))
IntLaws(x, y) ==
  /\ \A r \in {IAdd(x, y), ISub(x, y), IMul(x, y), INeg(x)} : WellFormed(r) /\ r.k = "i"
  /\ IAdd(x, y) = IAdd(y, x) /\ IMul(x, y) = IMul(y, x)
  /\ ISub(IAdd(x, y), y) = x /\ ISub(x, y) = IAdd(x, INeg(y)) /\ ISub(x, y) = INeg(ISub(y, x))
  /\ INeg(INeg(x)) = x /\ IMul(x, I(-1)) = INeg(x)
  /\ IMul(x, IAdd(y, I(1))) = IAdd(IMul(x, y), x)
  /\ (~IsZeroN(y) => LET q == IQuo(x, y) r == IRem(x, y) IN
        /\ IAdd(IMul(q, y), r) = x
        /\ BCmp(r.m, y.m) < 0 /\ (r.m # <<>> => r.g = x.g)
        /\ (q.m # <<>> /\ q # x => q.g = ((x.g + y.g) % 2)))
  /\ ICmp(x, y) = -ICmp(y, x) /\ (ICmp(x, y) = 0 <=> x = y)
  /\ ParseInt(IntText(x)) = x
FltLaws(x, y) ==
  /\ \A r \in {FAdd(x, y), FSub(x, y), FMul(x, y), FNeg(x)} : WellFormed(r) /\ r.k # "i"
  /\ FAdd(x, y) = FAdd(y, x) /\ FMul(x, y) = FMul(y, x)
  /\ SameNum(FSub(x, y), FNeg(FSub(y, x)))
  /\ FMul(x, D("1")) = x /\ (x.k = "nan" \/ SameNum(FAdd(x, FZero(0)), x))
  /\ (x.k = "f" => IsZeroN(FSub(x, x)) /\ FAdd(x, x) = FMul(x, D("2")))
  /\ (~IsZeroN(y) => /\ WellFormed(FDiv(x, y)) /\ WellFormed(FMod(x, y))
                     /\ (x.k = "f" /\ y.k = "f" => LET r == FMod(x, y) IN
                           /\ (IsZeroN(r) \/ r.g = x.g) /\ FCmp([r EXCEPT !.g = 0], [y EXCEPT !.g = 0]) < 0
                           /\ FMod(r, y) = r)
                     /\ (x.k = "f" /\ ~IsZeroN(x) => FDiv(x, x) = D("1") /\ FDiv(x, D("1")) = x /\ FMod(x, x) = FZero(x.g)))
  /\ (x.k # "nan" /\ y.k # "nan" => /\ FCmp(x, y) = -FCmp(y, x)
                                    /\ (FCmp(x, y) = 0 <=> SameNum(x, y))
                                    /\ (x.k = "f" /\ y.k = "f" => LET d == FSub(x, y) IN FCmp(x, y) = FCmp(d, FZero(0)))
                                    /\ (FCmp(x, y) <= 0 => FCmp(FFloor(x), FFloor(y)) <= 0 /\ FCmp(FCeil(x), FCeil(y)) <= 0))
  /\ (x.k = "f" => /\ FCmp(FFloor(x), x) <= 0 /\ FCmp(x, FCeil(x)) <= 0
                   /\ (FFloor(x) = x \/ SameNum(FAdd(FFloor(x), D("1")), FCeil(x)))
                   /\ LET t == FltText(x) IN ~IsZeroN(x) => ParseFloat(t.s) = x)
(* neighbours: half way between doubles goes to the even one, anything more to the nearer *)
NeighbourLaws(x) == x.k = "f" /\ x.m # <<>> =>
  LET up == BAdd(BShl(x.m, 60 - BBitLen(x.m)), BOne) IN \* x as a 60-bit number and a little more
  /\ FRound(x.g, BShl(x.m, 60), x.e - 60, FALSE) = x
  /\ FRound(x.g, BShl(x.m, 60), x.e - 60, TRUE) = x
  /\ LET M == BShl(x.m, 53 - BBitLen(x.m)) E == x.e - (53 - BBitLen(x.m)) mid == BAdd(BShl(M, 1), BOne) IN
     (BBitLen(x.m) + x.e \in -1000..1023 =>
        /\ FRound(x.g, mid, E - 1, FALSE) = FNorm(x.g, IF BOdd(M) THEN BAdd(M, BOne) ELSE M, E)
        /\ FRound(x.g, mid, E - 1, TRUE) = FNorm(x.g, BAdd(M, BOne), E))
  /\ (BBitLen(x.m) + x.e > -1000 => FRound(x.g, up, x.e - (60 - BBitLen(x.m)), FALSE) = x)

(* --------------------------- equality and order --------------------------- *)
EqLaws(x, y) ==
  /\ Eq(x, y) = Eq(y, x)
  /\ (JsType(x) # JsType(y) /\ "object" \notin {JsType(x), JsType(y)} /\ {JsType(x), JsType(y)} \cap {"undefined", "null"} # {} /\ ~({JsType(x), JsType(y)} \subseteq {"undefined", "null"}) => Eq(x, y) = FalseV)
  /\ Eq(x, y).t \in {"b", "U"}
  /\ (IsIntN(x) /\ IsIntN(y) => (Eq(x, y) = TrueV <=> x = y))
  /\ (x.t = "s" /\ y.t = "s" => (Eq(x, y) = TrueV <=> x = y))
  /\ (x.t \in {"z", "u"} => (Eq(x, y) = TrueV <=> y.t \in {"z", "u"}))
RECURSIVE HasNaN(_)
HasNaN(v) == (v.t = "n" /\ v.k = "nan") \/ (IsContainer(v) /\ \E i \in 1..Len(Children(v)) : HasNaN(Children(v)[i]))
EqSelf(x) == HasNaN(x) \/ Eq(x, x) = TrueV
RelLaws(x, y) ==
  LET r(op) == Rel(op, x, y) IN
  /\ r("lt") = Rel("gt", y, x) /\ r("le") = Rel("ge", y, x)
  /\ (IsU(x) \/ IsU(y) => \A op \in {"lt", "le", "gt", "ge"} : IsU(r(op)))
  /\ (~IsU(x) /\ ~IsU(y) /\ ~(Simple(x) /\ Simple(y)) => \A op \in {"lt", "le", "gt", "ge"} : r(op) = FalseV)
  /\ (Simple(x) /\ Simple(y) /\ (x.t = "s" <=> y.t = "s") /\ ~HasNaN(x) /\ ~HasNaN(y) =>
        /\ Cardinality({ op \in {"lt", "gt"} : r(op) = TrueV }) + (IF Eq(x, y) = TrueV THEN 1 ELSE 0) = 1
        /\ (r("le") = TrueV <=> r("lt") = TrueV \/ Eq(x, y) = TrueV)
        /\ (r("ge") = TrueV <=> r("gt") = TrueV \/ Eq(x, y) = TrueV))
LogicLaws(x, y) ==
  LET o == Binary("or", x, y) n == Binary("and", x, y) IN
  /\ (Truthy(o) <=> Truthy(x) \/ Truthy(y)) /\ (Truthy(n) <=> Truthy(x) /\ Truthy(y))
  /\ n \in {x, y} /\ o \in {x, y}
  /\ Truthy(Unary("not", x)) = ~Truthy(x) /\ Unary("not", Unary("not", x)) = BoolV(Truthy(x))
  /\ Truthy(Unary("not", n)) = Truthy(Binary("or", Unary("not", x), Unary("not", y)))      \* de Morgan
  /\ (Eq(x, y).t = "b" => Binary("ne", x, y) = Unary("not", Binary("eq", x, y)))
MemberLaws(x, y) ==
  LET arr == ArrV(<<y>>) m == InArray("in", x, arr) IN
  /\ (~IsU(x) /\ Eq(x, y).t = "b" => m = Eq(y, x) /\ InArray("nin", x, arr) = NotV(m) /\ InArray("in", x, ArrV(<<>>)) = FalseV)
  /\ (~IsU(x) /\ EqSelf(x) /\ Eq(x, x) = TrueV => InArray("in", x, ArrV(<<y, x>>)) = TrueV)

(* --------------------------------- slices --------------------------------- *)
Bounds == -7..7
None99 == 99
ArgOf(n) == IF n = None99 THEN [v |-> "none"] ELSE [v |-> "int", n |-> I(n)]
(* RFC 9535, 2.3.4.2.2, as it stands there *)
RfcNormalize(i, len) == IF i >= 0 THEN i ELSE len + i
RECURSIVE RfcUp(_, _, _), RfcDown(_, _, _)
RfcUp(i, upper, step) == IF i < upper THEN <<i>> \o RfcUp(i + step, upper, step) ELSE <<>>
RfcDown(i, lower, step) == IF lower < i THEN <<i>> \o RfcDown(i + step, lower, step) ELSE <<>>
RfcSlice(start0, end0, step0, len) ==
  LET step == IF step0 = None99 THEN 1 ELSE step0
      start == IF start0 # None99 THEN start0 ELSE IF step >= 0 THEN 0 ELSE len - 1
      end == IF end0 # None99 THEN end0 ELSE IF step >= 0 THEN len ELSE -len - 1
      ns == RfcNormalize(start, len) ne == RfcNormalize(end, len)
      lower == IF step >= 0 THEN Min2(Max2(ns, 0), len) ELSE Min2(Max2(ne, -1), len - 1)
      upper == IF step >= 0 THEN Min2(Max2(ne, 0), len) ELSE Min2(Max2(ns, -1), len - 1)
  IN IF step > 0 THEN RfcUp(lower, upper, step) ELSE IF step < 0 THEN RfcDown(upper, lower, step) ELSE <<>>
SliceLaws(x, y) == \* x: [l, s], y: [from, to]
  LET ix == SliceIndices(<<ArgOf(y.from), ArgOf(y.to), ArgOf(x.s)>>, x.l) IN
  /\ ix = RfcSlice(y.from, y.to, x.s, x.l)
  /\ \A i \in 1..Len(ix) : ix[i] \in 0..(x.l - 1)
(* bounds beyond any array are as good as at its end *)
HugeLaws(x, y) ==
  LET big(n) == IF n = 7 THEN [v |-> "int", n |-> Big("9223372036854775807")] ELSE IF n = -7 THEN [v |-> "int", n |-> Big("-9223372036854775808")] ELSE ArgOf(n)
  IN x.l <= 6 => SliceIndices(<<big(y.from), big(y.to), ArgOf(x.s)>>, x.l) = SliceIndices(<<ArgOf(y.from), ArgOf(y.to), ArgOf(x.s)>>, x.l)

(* --------------------------- regular expressions --------------------------- *)
(* expressions over {a, b} as trees with their text, and the strings (up to length 3) they denote *)
Sigma == {97, 98}
Words == UNION { [1..n -> Sigma] : n \in 0..3 }
Subjects == UNION { [1..n -> Sigma \cup {10}] : n \in 0..3 }
Short(L) == { w \in L : Len(w) <= 3 }
Cats(L, M) == Short({ x \o y : x \in L, y \in M })
RECURSIVE Power(_, _)
Power(L, n) == IF n = 0 THEN {<<>>} ELSE Cats(L, Power(L, n - 1))
Atoms == { [s |-> Ascii("a"), L |-> {<<97>>}], [s |-> Ascii("b"), L |-> {<<98>>}], [s |-> Ascii("."), L |-> {<<97>>, <<98>>}], [s |-> Ascii("[^a]"), L |-> {<<98>>, <<10>>}],
           [s |-> Ascii("[ab]"), L |-> {<<97>>, <<98>>}], [s |-> Ascii("()"), L |-> {<<>>}], [s |-> Ascii("\\s"), L |-> {<<10>>}] }
Paren(x) == [x EXCEPT !.s = Ascii("(") \o x.s \o Ascii(")")]
Postfix(x) == { [s |-> x.s \o Ascii("*"), L |-> UNION { Power(x.L, n) : n \in 0..3 }], [s |-> x.s \o Ascii("+?"), L |-> UNION { Power(x.L, n) : n \in 1..4 }],
                [s |-> x.s \o Ascii("?"), L |-> x.L \cup {<<>>}], [s |-> x.s \o Ascii("{2}"), L |-> Power(x.L, 2)], [s |-> x.s \o Ascii("{1,2}?"), L |-> x.L \cup Power(x.L, 2)] }
Both(x, y) == { [s |-> x.s \o y.s, L |-> Cats(x.L, y.L)], [s |-> Ascii("(?:") \o x.s \o Ascii("|") \o y.s \o Ascii(")"), L |-> x.L \cup y.L] }
Units == Atoms \cup UNION { Postfix(x) : x \in Atoms }
Regexes1 == Units \cup UNION { Both(x, y) : x, y \in Units }
DenotesOf(x, w, anchors) == \* does the expression with these anchors match w?
  CASE anchors = 0 -> \E i \in 1..(Len(w) + 1), j \in 0..Len(w) : i - 1 <= j /\ SubSeq(w, i, j) \in x.L
    [] anchors = 1 -> \E j \in 0..Len(w) : SubSeq(w, 1, j) \in x.L
    [] anchors = 2 -> \E i \in 1..(Len(w) + 1) : SubSeq(w, i, Len(w)) \in x.L
    [] anchors = 3 -> w \in x.L
Anchored(x, n) == (IF n \in {1, 3} THEN <<94>> ELSE <<>>) \o Ascii("(?:") \o x.s \o Ascii(")") \o (IF n \in {2, 3} THEN <<36>> ELSE <<>>)
ReLaws(x, y) ==
  \A z \in Both(x, y) \cup Both(Paren(x), x) : \A n \in 0..3 :
    LET re == ParseRE(Anchored(z, n)) IN
    re.ok = "ok" => \A w \in Subjects : REMatches(re, w) = (IF DenotesOf(z, w, n) THEN "T" ELSE "F")
(* the pieces and what is between them make up the subject; no piece of a separator that cannot be empty has a match in it *)
SplitLaws(x, y) ==
  \A z \in Both(x, y) : LET re == ParseRE(z.s) IN
    re.ok = "ok" => \A w \in Subjects : SplitKnown(re, w) =>
      LET p == RESplit(re, z.s, w) IN
      /\ \A i \in 1..Len(p) : HasSub(w, p[i])
      /\ (<<>> \notin z.L => (w # <<>> /\ FlattenSeq(p) = w => Len(p) = 1 /\ ~DenotesOf(z, w, 0)))
      /\ (~DenotesOf(z, w, 0) => p = <<w>>)
      /\ (z.L = {<<>>} /\ w # <<>> => p = [i \in 1..Len(w) |-> <<w[i]>>])

(* ---------------------------------- syntax ---------------------------------- *)
(* expressions with few operators, printed with as few parentheses as the table of precedences allows *)
Pri == [or |-> 0, and |-> 1, eq |-> 2, ne |-> 2, lt |-> 3, le |-> 3, gt |-> 3, ge |-> 3, match |-> 3, in |-> 3, nin |-> 3, add |-> 4, sub |-> 4, mul |-> 5, div |-> 5, mod |-> 5]
Sym == [or |-> "||", and |-> "&&", eq |-> "==", ne |-> "!=", lt |-> "<", le |-> "<=", gt |-> ">", ge |-> ">=", match |-> "=~", in |-> " in ", nin |-> " nin ", add |-> "+", sub |-> "-", mul |-> "*", div |-> "/", mod |-> "%"]
Id(s) == [x |-> "id", b |-> Ascii(s)]
LeavesE == { [x |-> "int", n |-> I(7)], [x |-> "cur"], [x |-> "str", b |-> Ascii("s")], [x |-> "null"], Id("x"), Op("array", <<>>), Op("array", <<[x |-> "root"], Id("y")>>),
             Op("call", <<Id("f")>>), Op("call", <<Id("f"), [x |-> "bool", c |-> TRUE], [x |-> "cur"]>>), Op("dot", <<[x |-> "cur"], Id("n")>>), Op("index", <<[x |-> "root"], [x |-> "int", n |-> I(0)]>>) }
PlainE == { [x |-> "cur"], Id("x"), [x |-> "int", n |-> I(7)] }
BinE(k1, k2) == { Op(o, <<p, q>>) : o \in DOMAIN Pri, p \in k1, q \in k2 }
UnE(k) == { Op(o, <<p>>) : o \in {"neg", "not"}, p \in k }
RECURSIVE Show(_, _)
ShowList(es, sep) == FoldLeft(LAMBDA acc, i : acc \o (IF i > 1 THEN sep ELSE <<>>) \o Show(es[i], 0), <<>>, [i \in 1..Len(es) |-> i])
Wrapped(yes, s) == IF yes THEN <<40>> \o s \o <<41>> ELSE s
IsPrimary(e) == e.x # "op" \/ e.o \in {"array", "call", "dot", "index"}
Show(e, pri) == \* pri: the least priority that needs no parentheses; 6 for an operand of a unary operator
  CASE e.x = "int" -> IntText(e.n)
    [] e.x = "str" -> <<39>> \o e.b \o <<39>>
    [] e.x = "id" -> e.b
    [] e.x = "bool" -> Ascii(IF e.c THEN "true" ELSE "false")
    [] e.x = "null" -> W_null
    [] e.x = "cur" -> <<64>>
    [] e.x = "root" -> <<36>>
    [] e.o \in {"neg", "not"} -> <<IF e.o = "neg" THEN 45 ELSE 33>> \o Show(e.k[1], 6)
    [] e.o = "array" -> <<91>> \o ShowList(e.k, <<44>>) \o <<93>>
    [] e.o = "call" -> e.k[1].b \o <<40>> \o ShowList(Tail(e.k), <<44>>) \o <<41>>
    [] e.o = "dot" -> Show(e.k[1], 7) \o <<46>> \o e.k[2].b
    [] e.o = "index" -> Show(e.k[1], 7) \o <<91>> \o Show(e.k[2], 0) \o <<93>>
    [] OTHER -> Wrapped(Pri[e.o] < pri, Show(e.k[1], Pri[e.o]) \o Ascii(Sym[e.o]) \o Show(e.k[2], Pri[e.o] + 1))
ShowsAs(e, text) == LET r == ParseExpression(text) IN r.ok /\ r.e = e
ParseLaws(x, y) ==
  /\ ShowsAs(x, Show(x, 0)) /\ ShowsAs(y, Show(y, 0))
  /\ \A o \in DOMAIN Pri : LET e == Op(o, <<x, y>>) IN ShowsAs(e, Show(e, 0))
  /\ \A e \in UnE({x}) : (x.x # "op" \/ x.o \notin DOMAIN Pri) => ShowsAs(e, Show(e, 0))
Spaced(s) == FoldLeft(LAMBDA acc, c : acc \o <<32, c>>, <<>>, s)    \* of texts whose tokens have one character
ExprCases == LeavesE \cup UnE(PlainE) \cup BinE(PlainE, {Id("y")}) \cup UnE(UnE({Id("x")}))

(* ---------------------------------- JSON ---------------------------------- *)
RECURSIVE JShow(_)
JShow(v) == CASE v.t = "z" -> W_null
              [] v.t = "b" -> Ascii(IF v.b THEN "true" ELSE "false")
              [] v.t = "n" -> (IF v.k = "i" THEN IntText(v) ELSE FltText(v).s)
              [] v.t = "s" -> <<34>> \o v.s \o <<34>>
              [] v.t = "a" -> <<91>> \o FoldLeft(LAMBDA acc, i : acc \o (IF i > 1 THEN <<44>> ELSE <<>>) \o JShow(v.a[i]), <<>>, [i \in 1..Len(v.a) |-> i]) \o <<93>>
              [] v.t = "o" -> <<123>> \o FoldLeft(LAMBDA acc, i : acc \o (IF i > 1 THEN <<44>> ELSE <<>>) \o <<34>> \o v.k[i] \o <<34, 58>> \o JShow(v.v[i]), <<>>, [i \in 1..Len(v.k) |-> i]) \o <<125>>
RECURSIVE Plain(_)
Plain(v) == v.t \in {"z", "b", "s"} \/ (v.t = "n" /\ v.k = "f" /\ (v.m # <<>> \/ v.g = 0)) \/ (IsContainer(v) /\ \A i \in 1..Len(Children(v)) : Plain(Children(v)[i]))
JsonLaws(x, y) == LET v == ArrV(<<x, y>>) IN Plain(v) => LET r == ParseJson(JShow(v)) IN r.ok /\ r.v = v

(* ------------------------------------------------------------------------ *)
FirstOf == CASE Part = "arith" -> Nums [] Part = "compare" -> Values [] Part = "logic" -> Values [] Part = "json" -> Values
             [] Part = "slice" -> { [l |-> l, s |-> s] : l \in 0..6, s \in {None99} \cup -4..4 }
             [] Part = "regex" -> Units [] Part = "syntax" -> ExprCases
SecondOf == CASE Part = "arith" -> Nums [] Part = "compare" -> Values [] Part = "logic" -> Values [] Part = "json" -> Values
             [] Part = "slice" -> { [from |-> f, to |-> t] : f, t \in {None99} \cup Bounds }
             [] Part = "regex" -> Units [] Part = "syntax" -> ExprCases
First == TLCEval(FirstOf)
Second == TLCEval(SecondOf)
Init == a \in First /\ b = NullV /\ st = 0
Next == \/ st = 0 /\ b' \in Second /\ st' = 1 /\ a' = a
        \/ st = 1 /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Laws == st = 1 =>
  CASE Part = "arith" -> /\ (a.k = "i" /\ b.k = "i" => IntLaws(a, b)) /\ (a.k # "i" /\ b.k # "i" => FltLaws(a, b)) /\ (a = b => NeighbourLaws(a))
                         /\ (a.k # "i" /\ b.k = "i" => WellFormed(ToFlt(b)) /\ FltLaws(a, ToFlt(b)))
    [] Part = "compare" -> EqLaws(a, b) /\ EqSelf(a) /\ RelLaws(a, b) /\ MemberLaws(a, b)
    [] Part = "logic" -> LogicLaws(a, b)
    [] Part = "slice" -> SliceLaws(a, b) /\ HugeLaws(a, b)
    [] Part = "regex" -> ReLaws(a, b) /\ SplitLaws(a, b)
    [] Part = "syntax" -> ParseLaws(a, b)
    [] Part = "json" -> JsonLaws(a, b)
=============================================================================
