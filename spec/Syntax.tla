------------------------------- MODULE Syntax -------------------------------
(***************************************************************************)
(* The path language: from the bytes of a text to an abstract path, or     *)
(* rejection.  Numbers in results are Num values, strings are bytes.       *)
(*                                                                         *)
(* Steps:  [o |-> "member" | "select" | "union" | "wild" | "filter" |      *)
(*               "nmember" | "nselect" | "nunion" | "nwild" | "nfilter",   *)
(*          a |-> sequence of arguments]                                   *)
(* Arguments: [v |-> "int", n] [v |-> "str", b] [v |-> "id", b]            *)
(*            [v |-> "slice", p |-> <<start, end, stride>>] [v |-> "exp", e]*)
(*            [v |-> "none"] for a missing slice part                      *)
(* Expressions: [x |-> "int" | "real", n] [x |-> "str" | "id" | "re", b]   *)
(*            [x |-> "bool", c] [x |-> "null" | "cur" | "root"]            *)
(*            [x |-> "op", o |-> operator, k |-> operands]                 *)
(***************************************************************************)
EXTENDS Num, Regex
Bt(S, i) == IF i <= Len(S) THEN S[i] ELSE -1
(* What recurses over the text is written as recursive functions, not operators: TLC carries the context of each
   caller into an operator it calls, which makes deep recursion quadratic. Any is TLC's set of everything. *)
SkipWs(S, i) == LET f[j \in Any] == IF j <= Len(S) /\ IsSpaceB(S[j]) THEN f[j + 1] ELSE j
                IN IF IsSpaceB(Bt(S, i)) THEN f[i + 1] ELSE i
(* the end (exclusive) of the longest run of digits, of identifier bytes, of those and dashes *)
IdByte(c) == IsLetterB(c) \/ IsDigitB(c)
IdDashByte(c) == IdByte(c) \/ c = 45
DigitsEnd(S, i) == LET f[j \in Any] == IF j <= Len(S) /\ IsDigitB(S[j]) THEN f[j + 1] ELSE j IN f[i]
IdEnd(S, i) == LET f[j \in Any] == IF j <= Len(S) /\ IdByte(S[j]) THEN f[j + 1] ELSE j IN f[i]
IdDashEnd(S, i) == LET f[j \in Any] == IF j <= Len(S) /\ IdDashByte(S[j]) THEN f[j + 1] ELSE j IN f[i]
Tok(k, i) == [k |-> k, n |-> i]
TokV(k, v, i) == [k |-> k, v |-> v, n |-> i]
TErr == [k |-> "err"]

(* ------------------------------ string literals ------------------------------ *)
(* The items of a literal: bytes as they are, and \u escapes as code units to be paired up. *)
HexAt(S, i) == FoldLeft(LAMBDA a, j : 16 * a + HexVal(S[j]), 0, <<i, i+1, i+2, i+3>>)
EscByte(c) == CASE c = 92 -> 92 [] c = 47 -> 47 [] c = 116 -> 9 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 98 -> 8 [] OTHER -> -1
StrItems(S, i0, q) == \* [ok, items, n]
  LET f[p \in Any] ==
        LET i == p[1] acc == p[2] c == Bt(S, i) d == Bt(S, i + 1) IN
        IF c = -1 THEN [ok |-> FALSE]
        ELSE IF c = q THEN [ok |-> TRUE, items |-> acc, n |-> i + 1]
        ELSE IF c = 92 THEN
          IF d = 117 THEN
            IF i + 5 <= Len(S) /\ \A j \in (i+2)..(i+5) : IsHexB(S[j])
            THEN f[<<i + 6, Append(acc, [u |-> HexAt(S, i + 2)])>>] ELSE [ok |-> FALSE]
          ELSE IF d = q THEN f[<<i + 2, Append(acc, [c |-> q])>>]
          ELSE IF EscByte(d) >= 0 THEN f[<<i + 2, Append(acc, [c |-> EscByte(d)])>>]
          ELSE [ok |-> FALSE]
        ELSE IF c < 32 THEN [ok |-> FALSE]
        ELSE f[<<i + 1, Append(acc, [c |-> c])>>]
  IN f[<<i0, <<>>>>]
IsHi(x) == "u" \in DOMAIN x /\ x.u \in 55296..56319
IsLo(x) == "u" \in DOMAIN x /\ x.u \in 56320..57343
Decode(it) ==
  LET f[p \in Any] ==
        LET i == p[1] acc == p[2] IN
        IF i > Len(it) THEN acc
        ELSE IF "c" \in DOMAIN it[i] THEN f[<<i + 1, Append(acc, it[i].c)>>]
        ELSE IF IsHi(it[i]) /\ i < Len(it) /\ IsLo(it[i + 1])
          THEN f[<<i + 2, acc \o EncodeRune(65536 + (it[i].u - 55296) * 1024 + (it[i + 1].u - 56320))>>]
        ELSE f[<<i + 1, acc \o EncodeRune(it[i].u)>>]
  IN f[<<1, <<>>>>]
StrTok(S, i, q) == \* i: just after the opening quote
  LET r == StrItems(S, i, q) IN IF r.ok THEN TokV("str", Decode(r.items), r.n) ELSE TErr

(* ---------------------------------- numbers ---------------------------------- *)
IntTok(S, i) == LET j == DigitsEnd(S, i) v == ParseInt(SubSeq(S, i, j - 1))
                IN IF v = Fail THEN TErr ELSE TokV("int", v, j)
MaxI64 == N("i", 0, BSub(Two63, BOne), 0)
NegTok(S, i) == \* after a minus sign in a path
  LET t == IntTok(S, i) IN
  IF ~IsDigitB(Bt(S, i)) \/ t = TErr THEN TErr
  ELSE IF t.v = MaxI64 THEN TErr      \* -(2^63-1) is rejected by the present grammar
  ELSE TokV("int", INeg(t.v), t.n)
NumTok(S, i) == \* in an expression
  LET j == DigitsEnd(S, i) IN
  IF Bt(S, j) # 46 THEN IntTok(S, i)
  ELSE LET f == DigitsEnd(S, j + 1)
           e == Bt(S, f) \in {69, 101}
           s == IF e /\ Bt(S, f + 1) \in {43, 45} THEN f + 2 ELSE f + 1
           g == DigitsEnd(S, s)
           z == IF e THEN g ELSE f
           v == ParseFloat(SubSeq(S, i, z - 1))
       IN IF e /\ ~IsDigitB(Bt(S, s)) THEN TErr
          ELSE IF v = Fail THEN TErr ELSE TokV("real", v, z)


(* ---------------------------------- tokens ---------------------------------- *)
PathTok(S, i0) ==
  LET i == SkipWs(S, i0) c == Bt(S, i) IN
  CASE c = -1 -> Tok("eof", i)
    [] c \in {40, 41, 91, 93, 42, 36, 58, 44} -> Tok(CharAt(Chars, c - 31), i + 1)
    [] c = 46 -> IF Bt(S, i + 1) = 46 THEN Tok("..", i + 2) ELSE Tok(".", i + 1)
    [] c = 63 -> IF Bt(S, i + 1) = 40 THEN Tok("?(", i + 2) ELSE TErr
    [] c \in {34, 39} -> StrTok(S, i + 1, c)
    [] c = 45 -> NegTok(S, SkipWs(S, i + 1))
    [] IsDigitB(c) -> IntTok(S, i)
    [] IsLetterB(c) -> LET j == IdDashEnd(S, i) IN TokV("id", SubSeq(S, i, j - 1), j)
    [] OTHER -> TErr
Two(S, i, c, yes, no) == IF Bt(S, i + 1) = c THEN Tok(yes, i + 2) ELSE Tok(no, i + 1)
ExprTok(S, i0) ==
  LET i == SkipWs(S, i0) c == Bt(S, i) IN
  CASE c = -1 -> Tok("eof", i)
    [] c \in {40, 41, 91, 93, 64, 36, 46, 44, 126, 42, 37, 43, 45, 47} -> Tok(CharAt(Chars, c - 31), i + 1)
    [] c = 38 -> Two(S, i, 38, "&&", "&")
    [] c = 124 -> Two(S, i, 124, "||", "|")
    [] c = 60 -> Two(S, i, 61, "<=", "<")
    [] c = 62 -> Two(S, i, 61, ">=", ">")
    [] c = 61 -> IF Bt(S, i + 1) = 61 THEN Tok("==", i + 2) ELSE Two(S, i, 126, "=~", "=")
    [] c = 33 -> Two(S, i, 61, "!=", "!")
    [] c \in {34, 39} -> StrTok(S, i + 1, c)
    [] IsDigitB(c) -> NumTok(S, i)
    [] IsLetterB(c) -> LET j == IdEnd(S, i) IN TokV("id", SubSeq(S, i, j - 1), j)
    [] OTHER -> TErr
(* the text of a regular expression literal from i, just after the opening slash *)
ReText(S, i0) ==
  LET f[p \in Any] ==
        LET i == p[1] acc == p[2] c == Bt(S, i) IN
        IF c = -1 THEN TErr
        ELSE IF c = 47 THEN TokV("re", acc, i + 1)
        ELSE IF c = 92 /\ Bt(S, i + 1) = 47 THEN f[<<i + 2, Append(acc, 47)>>]
        ELSE f[<<i + 1, Append(acc, c)>>]
  IN f[<<i0, <<>>>>]

(* ------------------------------- expressions ------------------------------- *)
W_in == Ascii("in")
W_nin == Ascii("nin")
W_true == Ascii("true")
W_false == Ascii("false")
W_null == Ascii("null")
(* an infix operator: [op, pri] *)
InfixOf(t) ==
  CASE t.k = "||" -> [op |-> "or", pri |-> 0]
    [] t.k = "&&" -> [op |-> "and", pri |-> 1]
    [] t.k = "==" -> [op |-> "eq", pri |-> 2]
    [] t.k = "!=" -> [op |-> "ne", pri |-> 2]
    [] t.k = "<" -> [op |-> "lt", pri |-> 3]
    [] t.k = "<=" -> [op |-> "le", pri |-> 3]
    [] t.k = ">" -> [op |-> "gt", pri |-> 3]
    [] t.k = ">=" -> [op |-> "ge", pri |-> 3]
    [] t.k \in {"~", "=~"} -> [op |-> "match", pri |-> 3]
    [] t.k = "id" -> (IF t.v = W_in THEN [op |-> "in", pri |-> 3]
                      ELSE IF t.v = W_nin THEN [op |-> "nin", pri |-> 3] ELSE [op |-> "none", pri |-> -1])
    [] t.k = "+" -> [op |-> "add", pri |-> 4]
    [] t.k = "-" -> [op |-> "sub", pri |-> 4]
    [] t.k = "*" -> [op |-> "mul", pri |-> 5]
    [] t.k = "/" -> [op |-> "div", pri |-> 5]
    [] t.k = "%" -> [op |-> "mod", pri |-> 5]
    [] OTHER -> [op |-> "none", pri |-> -1]

No == [ok |-> FALSE, u |-> FALSE]
NoU == [ok |-> FALSE, u |-> TRUE]       \* cannot tell: a regular expression outside the known subset
Yes(e, i) == [ok |-> TRUE, e |-> e, n |-> i]
Op(o, k) == [x |-> "op", o |-> o, k |-> k]

(* f is the parser of the text S as a function of [p |-> which production, i |-> from where, ...]: see Parser *)
PExpr(S, f, i, pri) ==
  LET p == f[[p |-> "primary", i |-> i]] IN IF ~p.ok THEN p ELSE f[[p |-> "infix", i |-> p.n, pri |-> pri, left |-> p.e]]
PInfix(S, f, i, pri, left) ==
  LET t == ExprTok(S, i) o == InfixOf(t) IN
  IF o.op = "none" \/ o.pri < pri THEN Yes(left, i)
  ELSE LET r == f[[p |-> "expr", i |-> t.n, pri |-> o.pri + 1]] IN
       IF ~r.ok THEN r ELSE f[[p |-> "infix", i |-> r.n, pri |-> pri, left |-> Op(o.op, <<left, r.e>>)]]
PPrimary(S, f, i) ==
  LET p == f[[p |-> "primary1", i |-> i]] IN IF ~p.ok THEN p ELSE f[[p |-> "postfix", i |-> p.n, left |-> p.e]]
PPostfix(S, f, i, e) ==
  LET t == ExprTok(S, i) IN
  CASE t.k = "(" ->
         IF e.x # "id" THEN No
         ELSE LET l == f[[p |-> "list", i |-> t.n, end |-> ")", acc |-> <<e>>]] IN
              IF ~l.ok THEN l ELSE f[[p |-> "postfix", i |-> l.n, left |-> Op("call", l.e)]]
    [] t.k = "[" ->
         LET x == f[[p |-> "expr", i |-> t.n, pri |-> 0]] IN
         IF ~x.ok THEN x
         ELSE LET c == ExprTok(S, x.n) IN
              IF c.k # "]" THEN No ELSE f[[p |-> "postfix", i |-> c.n, left |-> Op("index", <<e, x.e>>)]]
    [] t.k = "." ->
         LET d == ExprTok(S, t.n) IN
         IF d.k # "id" THEN No ELSE f[[p |-> "postfix", i |-> d.n, left |-> Op("dot", <<e, [x |-> "id", b |-> d.v]>>)]]
    [] OTHER -> Yes(e, i)
(* a possibly empty list of expressions up to the token end *)
PList(S, f, i, end, acc) ==
  LET t == ExprTok(S, i) IN
  IF t.k = end THEN Yes(acc, t.n) ELSE f[[p |-> "listfrom", i |-> i, end |-> end, acc |-> acc]]
PListFrom(S, f, i, end, acc) ==
  LET e == f[[p |-> "expr", i |-> i, pri |-> 0]] IN
  IF ~e.ok THEN e
  ELSE LET c == ExprTok(S, e.n) IN
       IF c.k = "," THEN f[[p |-> "listfrom", i |-> c.n, end |-> end, acc |-> Append(acc, e.e)]]
       ELSE IF c.k = end THEN Yes(Append(acc, e.e), c.n) ELSE No
PPrimary1(S, f, i) ==
  LET t == ExprTok(S, i)
      unary(o) == LET p == f[[p |-> "primary", i |-> t.n]] IN IF ~p.ok THEN p ELSE Yes(Op(o, <<p.e>>), p.n)
  IN
  CASE t.k = "-" -> unary("neg")
    [] t.k = "!" -> unary("not")
    [] t.k = "id" ->
         IF t.v = W_true THEN Yes([x |-> "bool", c |-> TRUE], t.n)
         ELSE IF t.v = W_false THEN Yes([x |-> "bool", c |-> FALSE], t.n)
         ELSE IF t.v = W_null THEN Yes([x |-> "null"], t.n)
         ELSE Yes([x |-> "id", b |-> t.v], t.n)
    [] t.k \in {"int", "real"} -> IF t.v.t = "U" THEN NoU ELSE Yes([x |-> t.k, n |-> t.v], t.n)
    [] t.k = "str" -> Yes([x |-> "str", b |-> t.v], t.n)
    [] t.k = "/" ->
         LET r == ReText(S, t.n) IN
         IF r = TErr THEN No
         ELSE LET re == ParseRE(r.v) IN
              IF re.ok = "bad" THEN No ELSE IF re.ok = "U" THEN NoU
              ELSE Yes([x |-> "re", b |-> r.v], r.n)
    [] t.k = "@" -> Yes([x |-> "cur"], t.n)
    [] t.k = "$" -> Yes([x |-> "root"], t.n)
    [] t.k = "(" -> (LET e == f[[p |-> "expr", i |-> t.n, pri |-> 0]] IN
                     IF ~e.ok THEN e ELSE LET c == ExprTok(S, e.n) IN IF c.k # ")" THEN No ELSE Yes(e.e, c.n))
    [] t.k = "[" -> (LET l == f[[p |-> "list", i |-> t.n, end |-> "]", acc |-> <<>>]] IN
                     IF ~l.ok THEN l ELSE Yes(Op("array", l.e), l.n))
    [] OTHER -> No

(* ---------------------------------- paths ---------------------------------- *)
(* "(" expr ")" with i just after the opening parenthesis *)
PParen(S, f, i) ==
  LET e == f[[p |-> "expr", i |-> i, pri |-> 0]] IN
  IF ~e.ok THEN e ELSE LET c == ExprTok(S, e.n) IN IF c.k # ")" THEN No ELSE e @@ [m |-> c.n]
Missing == [v |-> "none"]
ExpArg(e) == [v |-> "exp", e |-> e]

(* a slice bound at i *)
PBound(S, f, i) ==
  LET t == PathTok(S, i) IN
  CASE t.k = "(" -> (LET e == PParen(S, f, t.n) IN IF ~e.ok THEN e ELSE Yes(ExpArg(e.e), e.m))
    [] t.k = "int" -> Yes([v |-> "int", n |-> t.v], t.n)
    [] OTHER -> No
(* the rest of a slice, after start? ":" *)
SliceOf(a, b, c) == [s |-> "slice", a |-> [v |-> "slice", p |-> <<a, b, c>>]]
PSlice(S, f, i, start) ==
  LET t == PathTok(S, i) IN
  IF t.k \in {",", "]"} THEN Yes(SliceOf(start, Missing, Missing), i)
  ELSE LET b == IF t.k = ":" THEN Yes(Missing, i) ELSE PBound(S, f, i) IN
       IF ~b.ok THEN b
       ELSE LET t2 == PathTok(S, b.n) IN
            IF t2.k \in {",", "]"} THEN Yes(SliceOf(start, b.e, Missing), b.n)
            ELSE IF t2.k # ":" THEN No
            ELSE LET t3 == PathTok(S, t2.n) IN
                 IF t3.k \in {",", "]"} THEN Yes(SliceOf(start, b.e, Missing), t2.n)
                 ELSE LET c == PBound(S, f, t2.n) IN
                      IF ~c.ok THEN c ELSE Yes(SliceOf(start, b.e, c.e), c.n)
(* one element of a bracketed subscript: [s |-> "wild" | "exp" | "filter" | "slice" | "lit", a |-> argument] *)
PElement(S, f, i) ==
  LET t == PathTok(S, i) IN
  CASE t.k = "*" -> Yes([s |-> "wild"], t.n)
    [] t.k = "(" -> (LET e == PParen(S, f, t.n) IN
                     IF ~e.ok THEN e
                     ELSE LET c == PathTok(S, e.m) IN
                          IF c.k = ":" THEN PSlice(S, f, c.n, ExpArg(e.e)) ELSE Yes([s |-> "exp", a |-> ExpArg(e.e)], e.m))
    [] t.k = ":" -> PSlice(S, f, t.n, Missing)
    [] t.k = "?(" -> (LET e == PParen(S, f, t.n) IN IF ~e.ok THEN e ELSE Yes([s |-> "filter", a |-> ExpArg(e.e)], e.m))
    [] t.k = "int" -> (LET c == PathTok(S, t.n) a == [v |-> "int", n |-> t.v] IN
                       IF c.k = ":" THEN PSlice(S, f, c.n, a) ELSE Yes([s |-> "lit", a |-> a], t.n))
    [] t.k = "str" -> Yes([s |-> "lit", a |-> [v |-> "str", b |-> t.v]], t.n)
    [] t.k = "id" -> Yes([s |-> "lit", a |-> [v |-> "id", b |-> t.v]], t.n)
    [] OTHER -> No
PElements(S, f, i, acc) ==
  LET e == PElement(S, f, i) IN
  IF ~e.ok THEN e
  ELSE LET c == PathTok(S, e.n) IN
       IF c.k = "," THEN f[[p |-> "elements", i |-> c.n, acc |-> Append(acc, e.e)]] ELSE Yes(Append(acc, e.e), e.n)
Step(o, a) == [o |-> o, a |-> a]
(* a bracketed subscript, i just after "[" *)
PBrackets(S, f, i, nest) ==
  LET l == f[[p |-> "elements", i |-> i, acc |-> <<>>]]
      name(o) == IF nest THEN "n" \o o ELSE o
  IN IF ~l.ok THEN l
     ELSE IF Len(l.e) > 1 /\ \E j \in 1..Len(l.e) : l.e[j].s \in {"wild", "exp", "filter"} THEN No
     ELSE LET c == PathTok(S, l.n) h == l.e[1] IN
          IF c.k # "]" THEN No
          ELSE IF Len(l.e) > 1 THEN Yes(Step(name("union"), [j \in 1..Len(l.e) |-> l.e[j].a]), c.n)
          ELSE IF h.s = "wild" THEN Yes(Step(name("wild"), <<>>), c.n)
          ELSE IF h.s = "filter" THEN Yes(Step(name("filter"), <<h.a>>), c.n)
          ELSE Yes(Step(name("select"), <<h.a>>), c.n)
PMember(S, f, i, nest) ==
  LET t == PathTok(S, i) o == IF nest THEN "nmember" ELSE "member" IN
  CASE t.k = "*" -> Yes(Step(IF nest THEN "nwild" ELSE "wild", <<>>), t.n)
    [] t.k = "id" -> Yes(Step(o, <<[v |-> "id", b |-> t.v]>>), t.n)
    [] t.k = "int" -> Yes(Step(o, <<[v |-> "int", n |-> t.v]>>), t.n)
    [] t.k = "(" -> (LET e == PParen(S, f, t.n) IN IF ~e.ok THEN e ELSE Yes(Step(o, <<ExpArg(e.e)>>), e.m))
    [] OTHER -> No
PSteps(S, f, i, acc) ==
  LET t == PathTok(S, i)
      r == CASE t.k = "." -> PMember(S, f, t.n, FALSE)
             [] t.k = ".." -> (LET u == PathTok(S, t.n) IN IF u.k = "[" THEN PBrackets(S, f, u.n, TRUE) ELSE PMember(S, f, t.n, TRUE))
             [] t.k = "[" -> PBrackets(S, f, t.n, FALSE)
             [] OTHER -> No
  IN IF t.k = "eof" THEN Yes(acc, i)
     ELSE IF ~r.ok THEN r ELSE f[[p |-> "steps", i |-> r.n, acc |-> Append(acc, r.e)]]

Parser(S) ==
  LET f[q \in Any] ==
        CASE q.p = "expr" -> PExpr(S, f, q.i, q.pri)
          [] q.p = "infix" -> PInfix(S, f, q.i, q.pri, q.left)
          [] q.p = "primary" -> PPrimary(S, f, q.i)
          [] q.p = "primary1" -> PPrimary1(S, f, q.i)
          [] q.p = "postfix" -> PPostfix(S, f, q.i, q.left)
          [] q.p = "list" -> PList(S, f, q.i, q.end, q.acc)
          [] q.p = "listfrom" -> PListFrom(S, f, q.i, q.end, q.acc)
          [] q.p = "elements" -> PElements(S, f, q.i, q.acc)
          [] q.p = "steps" -> PSteps(S, f, q.i, q.acc)
  IN f

(* The meaning of a text: [ok, e] or [ok |-> FALSE, u |-> is it unknown?] *)
ParsePath(S) == LET t == PathTok(S, 1) f == Parser(S) IN
                IF t.k # "$" THEN No ELSE f[[p |-> "steps", i |-> t.n, acc |-> <<>>]]
ParseExpression(S) ==
  LET f == Parser(S) e == f[[p |-> "expr", i |-> 1, pri |-> 0]] IN
  IF ~e.ok THEN e ELSE IF ExprTok(S, e.n).k # "eof" THEN No ELSE e
=============================================================================
