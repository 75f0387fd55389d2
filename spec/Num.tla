-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* The two kinds of number an expression can have: 64-bit integers (from   *)
(* literals, lengths and arithmetic on those) and IEEE doubles (from the   *)
(* document, real literals and functions).  A number is a record           *)
(*   [t |-> "n", k |-> "i" | "f" | "inf" | "nan", g |-> 0 | 1, m, e]       *)
(* of value (-1)^g * m * 2^e with m a BigNat; integers have e = 0, doubles *)
(* have m odd (or zero with e = 0).                                        *)
(***************************************************************************)
EXTENDS BigNat
N(k, g, m, e) == [t |-> "n", k |-> k, g |-> g, m |-> m, e |-> e]
PoisonV == [t |-> "U"]     \* unspecified
NothingV == [t |-> "u"]    \* missing / failed operation
IsNum(v) == v.t = "n"
IsIntN(v) == v.t = "n" /\ v.k = "i"
IsFltN(v) == v.t = "n" /\ v.k # "i"
IntN(n) == IF n < 0 THEN N("i", 1, BNat(-n), 0) ELSE N("i", 0, BNat(n), 0)
FZero(g) == N("f", g, <<>>, 0)
Inf(g) == N("inf", g, <<>>, 0)
NaN == N("nan", 0, <<>>, 0)
IsZeroN(v) == v.m = <<>> /\ v.k \in {"i", "f"}

(* 64-bit wrap around of a signed big number *)
Two64 == TLCEval([i \in 1..6 |-> IF i = 6 THEN 16 ELSE 0])       \* 2^64 = 16 * 4096^5
Two63 == TLCEval([i \in 1..6 |-> IF i = 6 THEN 8 ELSE 0])
LowBits64(m) == BDivMod(m, Two64).r
Wrap(g, m) ==
  IF Len(m) < 6 THEN N("i", IF m = <<>> THEN 0 ELSE g, m, 0)
  ELSE LET r0 == LowBits64(m)
           r == IF g = 0 \/ r0 = <<>> THEN r0 ELSE BSub(Two64, r0)   \* value mod 2^64
       IN IF BCmp(r, Two63) >= 0 THEN N("i", 1, BSub(Two64, r), 0) ELSE N("i", 0, r, 0)
FitsInt64(g, m) == Len(m) < 6 \/ (IF g = 0 THEN BCmp(m, Two63) < 0 ELSE BCmp(m, Two63) <= 0)

(* signed sum of big numbers *)
SAdd(g1, m1, g2, m2) ==
  IF g1 = g2 THEN [g |-> g1, m |-> BAdd(m1, m2)]
  ELSE LET c == BCmp(m1, m2) IN
       IF c = 0 THEN [g |-> 0, m |-> <<>>]
       ELSE IF c > 0 THEN [g |-> g1, m |-> BSub(m1, m2)] ELSE [g |-> g2, m |-> BSub(m2, m1)]

IAdd(a, b) == LET s == SAdd(a.g, a.m, b.g, b.m) IN Wrap(s.g, s.m)
ISub(a, b) == LET s == SAdd(a.g, a.m, 1 - b.g, b.m) IN Wrap(s.g, s.m)
IMul(a, b) == Wrap(((a.g + b.g) % 2), BMul(a.m, b.m))
IQuo(a, b) == Wrap(((a.g + b.g) % 2), BDivMod(a.m, b.m).q)   \* truncating; b # 0
IRem(a, b) == Wrap(a.g, BDivMod(a.m, b.m).r)
INeg(a) == Wrap(1 - a.g, a.m)
ICmp(a, b) == LET s == SAdd(a.g, a.m, 1 - b.g, b.m) IN IF s.m = <<>> THEN 0 ELSE IF s.g = 1 THEN -1 ELSE 1

(* Doubles *)
FNorm(g, m, e) == IF m = <<>> THEN FZero(g) ELSE LET z == BTrailZeros(m) IN N("f", g, BShr(m, z), e + z)
(* the nearest double (ties to even) of (-1)^g * (m + something in (0,1) if sticky) * 2^e *)
FRound(g, m, e, sticky) ==
  IF m = <<>> THEN FZero(g)
  ELSE LET bl == BBitLen(m)
           sh == Max2(bl - 53, -1074 - e)
           q == BShr(m, sh)
           half == BBit(m, sh - 1) = 1
           rest == sticky \/ BLowNonZero(m, sh - 1)
           qr == IF half /\ (rest \/ BOdd(q)) THEN BAdd(q, BOne) ELSE q
       IN IF sh <= 0 THEN (IF bl + e > 1024 THEN Inf(g) ELSE FNorm(g, m, e))
          ELSE IF BBitLen(qr) + e + sh > 1024 THEN Inf(g)
          ELSE FNorm(g, qr, e + sh)
ToFlt(v) == IF v.k = "i" THEN FRound(v.g, v.m, 0, FALSE) ELSE v

FNeg(a) == [a EXCEPT !.g = IF a.k = "nan" THEN 0 ELSE 1 - a.g]
FAdd(a, b) ==
  IF a.k = "nan" \/ b.k = "nan" THEN NaN
  ELSE IF a.k = "inf" THEN (IF b.k = "inf" /\ b.g # a.g THEN NaN ELSE a)
  ELSE IF b.k = "inf" THEN b
  ELSE IF a.m = <<>> /\ b.m = <<>> THEN FZero(IF a.g = 1 /\ b.g = 1 THEN 1 ELSE 0)
  ELSE IF a.m = <<>> THEN b ELSE IF b.m = <<>> THEN a
  ELSE LET e == Min2(a.e, b.e)
           s == SAdd(a.g, BShl(a.m, a.e - e), b.g, BShl(b.m, b.e - e))
       IN FRound(s.g, s.m, e, FALSE)
FSub(a, b) == FAdd(a, FNeg(b))
FMul(a, b) ==
  LET g == ((a.g + b.g) % 2) IN
  IF a.k = "nan" \/ b.k = "nan" THEN NaN
  ELSE IF a.k = "inf" \/ b.k = "inf" THEN (IF IsZeroN(a) \/ IsZeroN(b) THEN NaN ELSE Inf(g))
  ELSE FRound(g, BMul(a.m, b.m), a.e + b.e, FALSE)
FDiv(a, b) == \* b is not zero
  LET g == ((a.g + b.g) % 2) IN
  IF a.k = "nan" \/ b.k = "nan" THEN NaN
  ELSE IF a.k = "inf" THEN (IF b.k = "inf" THEN NaN ELSE Inf(g))
  ELSE IF b.k = "inf" \/ a.m = <<>> THEN FZero(g)
  ELSE LET k == Max2(0, 70 + BBitLen(b.m) - BBitLen(a.m))
           d == BDivMod(BShl(a.m, k), b.m)
       IN FRound(g, d.q, a.e - b.e - k, d.r # <<>>)
FMod(a, b) == \* b is not zero; sign of a
  IF a.k \in {"nan", "inf"} \/ b.k = "nan" THEN NaN
  ELSE IF b.k = "inf" \/ a.m = <<>> THEN a
  ELSE LET e == Min2(a.e, b.e)
           r == BDivMod(BShl(a.m, a.e - e), BShl(b.m, b.e - e)).r
       IN FRound(a.g, r, e, FALSE)
FCmp(a, b) == \* neither is NaN
  LET sa == IF IsZeroN(a) THEN 0 ELSE IF a.g = 1 THEN -1 ELSE 1
      sb == IF IsZeroN(b) THEN 0 ELSE IF b.g = 1 THEN -1 ELSE 1
      mag == IF a.k = "inf" \/ b.k = "inf" THEN
               (IF a.k = b.k THEN 0 ELSE IF a.k = "inf" THEN 1 ELSE -1)
             ELSE LET la == BBitLen(a.m) + a.e lb == BBitLen(b.m) + b.e e == Min2(a.e, b.e)
                  IN IF la # lb THEN (IF la < lb THEN -1 ELSE 1)
                     ELSE BCmp(BShl(a.m, a.e - e), BShl(b.m, b.e - e))
  IN IF sa # sb THEN (IF sa < sb THEN -1 ELSE 1) ELSE IF sa = 0 THEN 0 ELSE sa * mag

(* the integer part of a number as a 64-bit integer; unspecified when it does not fit *)
Truncated(v) ==
  IF v.k = "i" THEN v
  ELSE IF v.k # "f" THEN PoisonV
  ELSE IF v.e >= 0 THEN (IF v.e > 64 /\ v.m # <<>> THEN PoisonV
                         ELSE LET m == BShl(v.m, v.e) IN IF FitsInt64(v.g, m) THEN N("i", IF m = <<>> THEN 0 ELSE v.g, m, 0) ELSE PoisonV)
  ELSE LET m == BShr(v.m, -v.e) IN IF FitsInt64(v.g, m) THEN N("i", IF m = <<>> THEN 0 ELSE v.g, m, 0) ELSE PoisonV
FFloor(v) == IF v.k # "f" \/ v.e >= 0 THEN v
             ELSE LET q == BShr(v.m, -v.e) IN FNorm(v.g, IF v.g = 1 THEN BAdd(q, BOne) ELSE q, 0)
FCeil(v) == FNeg(FFloor(FNeg(v)))

(* Decimal text *)
Fail == [t |-> "fail"]
Unsigned(s) == IF s # <<>> /\ s[1] \in {43, 45} THEN SubSeq(s, 2, Len(s)) ELSE s
SignOf(s) == IF s # <<>> /\ s[1] = 45 THEN 1 ELSE 0
AllDigits(s) == \A i \in 1..Len(s) : IsDigitB(s[i])
StripZeros(s) == LET i == SelectInSeq(s, LAMBDA c : c # 48) IN IF i = 0 THEN <<>> ELSE SubSeq(s, i, Len(s))
(* [+-]?digits with a 64-bit value, otherwise Fail *)
ParseInt(s) ==
  LET d == Unsigned(s) z == StripZeros(d) IN
  IF d = <<>> \/ ~AllDigits(d) \/ Len(z) > 20 THEN Fail
  ELSE LET m == BFromDigits(z) IN
       IF FitsInt64(SignOf(s), m) THEN N("i", IF m = <<>> THEN 0 ELSE SignOf(s), m, 0) ELSE Fail
(* the double nearest to (-1)^g * D * 10^x *)
FromDecimalOf(g, D, x) ==
  IF D = <<>> THEN FZero(g)
  ELSE IF x >= 0 THEN FRound(g, BMul(D, BPow10(x)), 0, FALSE)
  ELSE LET p == BPow10(-x)
           k == Max2(0, 70 + BBitLen(p) - BBitLen(D))
           d == BDivMod(BShl(D, k), p)
       IN FRound(g, d.q, -k, d.r # <<>>)
FromDecimalFcn[q \in Any] == FromDecimalOf(q.g, q.D, q.x)
FromDecimal(g, D, x) == FromDecimalFcn[[g |-> g, D |-> D, x |-> x]]
OddNumbers == {Ascii("inf"), Ascii("infinity"), Ascii("nan")}
(* [+-]? (digits [. digits*] | . digits) ([eE] [+-]? digits)?  as a double, Fail otherwise (or out of range).
   Spellings that ParseFloat and JavaScript treat differently are unspecified. *)
ParseFloatOf(s) ==
  LET u == Unsigned(s)
      ePos == SelectInSeq(u, LAMBDA c : c \in {69, 101})
      mant == IF ePos = 0 THEN u ELSE SubSeq(u, 1, ePos - 1)
      ex == IF ePos = 0 THEN <<48>> ELSE SubSeq(u, ePos + 1, Len(u))
      dot == SelectInSeq(mant, LAMBDA c : c = 46)
      ip == IF dot = 0 THEN mant ELSE SubSeq(mant, 1, dot - 1)
      fp == IF dot = 0 THEN <<>> ELSE SubSeq(mant, dot + 1, Len(mant))
      lower == TLCEval([i \in 1..Len(u) |-> IF u[i] \in 65..90 THEN u[i] + 32 ELSE u[i]])
      odd == \/ lower \in OddNumbers                                             \* inf, nan
             \/ u # <<>> /\ u[1] \in 46..57 /\ \E i \in 1..Len(u) : u[i] = 95                \* underscores
             \/ Len(u) > 1 /\ u[1] = 48 /\ u[2] \in {120, 88}                                 \* hex
      exd == Unsigned(ex) exz == StripZeros(exd)
      D0 == StripZeros(ip \o fp)
      last == SelectLastInSeq(D0, LAMBDA c : c # 48)
      \* beyond 800 digits it only matters whether there is anything more, as no two doubles' midpoint has as many
      D == IF last > 800 THEN SubSeq(D0, 1, 800) \o <<49>> ELSE SubSeq(D0, 1, last)
  IN IF odd THEN PoisonV
     ELSE IF ip \o fp = <<>> \/ ~AllDigits(ip) \/ ~AllDigits(fp) \/ exd = <<>> \/ ~AllDigits(exd) THEN Fail
     ELSE IF D0 = <<>> THEN FZero(SignOf(s))
     ELSE IF Len(exz) > 4 THEN (IF Len(exz) > 8 \/ Len(u) > 2000 THEN PoisonV ELSE IF SignOf(ex) = 1 THEN FZero(SignOf(s)) ELSE Fail)
     ELSE LET x0 == FoldLeft(LAMBDA a, c : 10 * a + c - 48, 0, exz)
              x == (IF SignOf(ex) = 1 THEN -x0 ELSE x0) - Len(fp)
              mag == Len(D0) + x  \* value in [10^(mag-1), 10^mag)
          IN IF mag > 310 THEN Fail ELSE IF mag < -330 THEN FZero(SignOf(s))
             ELSE LET v == FromDecimal(SignOf(s), BFromDigits(D), mag - Len(D)) IN IF v.k = "inf" THEN Fail ELSE v
ParseFloatFcn[s \in Any] == ParseFloatOf(s)
ParseFloat(s) == ParseFloatFcn[s]

IntText(v) == (IF v.g = 1 THEN <<45>> ELSE <<>>) \o (IF v.m = <<>> THEN <<48>> ELSE BDigits(v.m))
(* The shortest decimal D * 10^-p that reads back as the double v, and the nearest of those to v.  The digits of v
   are taken to 20 places or more.  Rounding them to k digits can only give v where the digits after those are all
   0 or all 9 for as long as a double is exact (unless v is so small that it has few bits), which saves trying. *)
RECURSIVE ShortFrom(_, _, _, _, _)
ShortFrom(v, ds, P, sticky, k) ==
  LET L == Len(ds)
      worth == \/ k >= 14 \/ BBitLen(v.m) + v.e < -1000
               \/ (\A i \in (k + 1)..14 : ds[i] = 48) \/ (\A i \in (k + 1)..14 : ds[i] = 57)
      tail == SubSeq(ds, k + 1, L)
      c == IF tail[1] # 53 THEN tail[1] - 53      \* what is left, compared with half a unit
           ELSE IF sticky \/ \E i \in 2..Len(tail) : tail[i] # 48 THEN 1 ELSE 0
      down == BFromDigits(SubSeq(ds, 1, k))
      up == BAdd(down, BOne)
      first == IF c > 0 \/ (c = 0 /\ BOdd(down)) THEN up ELSE down      \* the nearer of two neighbours
      other == IF first = up THEN down ELSE up                           \* may do where the first does not: powers of two
      p == P - (L - k)
      Good(D) == FromDecimal(v.g, D, -p) = v
  IN IF worth /\ Good(first) THEN [D |-> first, p |-> p]
     ELSE IF worth /\ v.m = BOne /\ Good(other) THEN [D |-> other, p |-> p]
     ELSE ShortFrom(v, ds, P, sticky, k + 1)
Shortest(v) ==
  LET b == BBitLen(v.m) + v.e
      P == 21 - (b * 30103) \div 100000      \* v * 10^P has 20 digits or more
      num == LET x == IF P >= 0 THEN BMul(v.m, BPow10(P)) ELSE v.m IN IF v.e >= 0 THEN BShl(x, v.e) ELSE x
      den == LET x == IF P >= 0 THEN BOne ELSE BPow10(-P) IN IF v.e >= 0 THEN x ELSE BShl(x, -v.e)
      dm == BDivMod(num, den)
  IN ShortFrom(v, BDigits(dm.q), P, dm.r # <<>>, 1)
FltTextOf(v) == \* the text of a double, following JavaScript (ECMA-262, Number::toString)
  IF v.k # "f" THEN PoisonV
  ELSE IF v.m = <<>> THEN [t |-> "s", s |-> <<48>>]
  ELSE IF v.e >= 0 /\ BBitLen(v.m) + v.e <= 53 THEN [t |-> "s", s |-> (IF v.g = 1 THEN <<45>> ELSE <<>>) \o BDigits(BShl(v.m, v.e))]
  ELSE LET r == Shortest(v)
           ds0 == BDigits(r.D)
           last == SelectLastInSeq(ds0, LAMBDA c : c # 48)
           ds == SubSeq(ds0, 1, last)                \* v = 0.ds * 10^n
           k == Len(ds)
           n == Len(ds0) - r.p
           zeros(c) == TLCEval([i \in 1..c |-> 48])
           ex == n - 1
           body == IF k <= n /\ n <= 21 THEN ds \o zeros(n - k)
                   ELSE IF 0 < n /\ n <= 21 THEN SubSeq(ds, 1, n) \o <<46>> \o SubSeq(ds, n + 1, k)
                   ELSE IF -6 < n /\ n <= 0 THEN <<48, 46>> \o zeros(-n) \o ds
                   ELSE (IF k = 1 THEN ds ELSE <<ds[1], 46>> \o SubSeq(ds, 2, k)) \o <<101, IF ex < 0 THEN 45 ELSE 43>>
                        \o BDigits(<<IF ex < 0 THEN -ex ELSE ex>>)
       IN [t |-> "s", s |-> (IF v.g = 1 THEN <<45>> ELSE <<>>) \o body]
FltTextFcn[v \in Any] == FltTextOf(v)
FltText(v) == FltTextFcn[v]
=============================================================================
