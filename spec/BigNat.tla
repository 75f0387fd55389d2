------------------------------- MODULE BigNat -------------------------------
(***************************************************************************)
(* Natural numbers of any size as little-endian sequences of 12-bit limbs, *)
(* without leading zero limbs (zero is <<>>), because TLC's own integers   *)
(* have 32 bits.                                                           *)
(***************************************************************************)
EXTENDS Bytes
LB == 4096
BZero == <<>>
BOne == <<1>>
BTrim(a) == LET n == SelectLastInSeq(a, LAMBDA x : x # 0) IN IF n = Len(a) THEN a ELSE SubSeq(a, 1, n)
RECURSIVE BNat(_)
BNat(n) == IF n = 0 THEN <<>> ELSE IF n < LB THEN <<n>> ELSE <<(n % LB)>> \o BNat(n \div LB)
BLimb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
BSmall(a) == Len(a) <= 2
BVal(a) == IF a = <<>> THEN 0 ELSE IF Len(a) = 1 THEN a[1] ELSE a[1] + LB * a[2]
Idx(n) == TLCEval([i \in 1..n |-> i])

BCmp(a, b) == \* -1, 0, 1
  IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
  ELSE LET d == SelectLastInSeq(Idx(Len(a)), LAMBDA i : a[i] # b[i])
       IN IF d = 0 THEN 0 ELSE IF a[d] < b[d] THEN -1 ELSE 1
BLe(a, b) == BCmp(a, b) <= 0

BAdd(a, b) ==
  IF BSmall(a) /\ BSmall(b) THEN BNat(BVal(a) + BVal(b))
  ELSE LET n == Max2(Len(a), Len(b))
           f == FoldLeft(LAMBDA acc, i : LET t == BLimb(a, i) + BLimb(b, i) + acc.c
                                         IN [c |-> t \div LB, r |-> Append(acc.r, (t % LB))],
                         [c |-> 0, r |-> <<>>], Idx(n))
       IN IF f.c = 0 THEN f.r ELSE Append(f.r, f.c)
BSub(a, b) == \* requires b <= a
  IF BSmall(a) THEN BNat(BVal(a) - BVal(b))
  ELSE LET f == FoldLeft(LAMBDA acc, i : LET t == a[i] - BLimb(b, i) - acc.c
                                         IN IF t < 0 THEN [c |-> 1, r |-> Append(acc.r, t + LB)]
                                            ELSE [c |-> 0, r |-> Append(acc.r, t)],
                         [c |-> 0, r |-> <<>>], Idx(Len(a)))
       IN BTrim(f.r)
BMulSmall(a, k) == \* k < 2^18
  IF k = 0 \/ a = <<>> THEN <<>>
  ELSE LET f == FoldLeft(LAMBDA acc, x : LET t == x * k + acc.c IN [c |-> t \div LB, r |-> Append(acc.r, (t % LB))],
                         [c |-> 0, r |-> <<>>], a)
       IN f.r \o BNat(f.c)
BMulOf(a, b) == \* a no longer than b
  IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE IF Len(a) = 1 /\ Len(b) = 1 THEN BNat(a[1] * b[1])
  ELSE IF Len(a) = 1 THEN BMulSmall(b, a[1])
  ELSE FoldLeft(LAMBDA acc, i : BAdd(acc, IF a[i] = 0 THEN <<>> ELSE [j \in 1..(i-1) |-> 0] \o BMulSmall(b, a[i])),
                <<>>, Idx(Len(a)))
(* Here and elsewhere an operator is called through a function of a record, because TLC evaluates a function where it
   is defined, but an operator in a context that holds all of its callers' and that it searches for every name. *)
BMulFcn[q \in Any] == IF Len(q.a) <= Len(q.b) THEN BMulOf(q.a, q.b) ELSE BMulOf(q.b, q.a)
BMul(a, b) == BMulFcn[[a |-> a, b |-> b]]

Pow2(k) == 2^k
RECURSIVE BitsOf(_)
BitsOf(n) == IF n = 0 THEN 0 ELSE 1 + BitsOf(n \div 2)
BBitLen(a) == IF a = <<>> THEN 0 ELSE 12 * (Len(a) - 1) + BitsOf(a[Len(a)])
BShl(a, k) == IF a = <<>> THEN <<>> ELSE TLCEval([j \in 1..(k \div 12) |-> 0]) \o BMulSmall(a, Pow2((k % 12)))
BShr(a, k) ==
  LET q == k \div 12 r == (k % 12) n == Len(a) - q IN
  IF n <= 0 THEN <<>>
  ELSE IF r = 0 THEN SubSeq(a, q + 1, Len(a))
  ELSE BTrim(TLCEval([i \in 1..n |-> (a[q + i] \div Pow2(r)) + (BLimb(a, q + i + 1) % Pow2(r)) * Pow2(12 - r)]))
BBit(a, k) == ((BLimb(a, k \div 12 + 1) \div Pow2((k % 12))) % 2) \* bit number k, from 0
BLowNonZero(a, k) == \* is any of the low k bits set?
  \/ \E i \in 1..Min2(k \div 12, Len(a)) : a[i] # 0
  \/ (BLimb(a, k \div 12 + 1) % Pow2((k % 12))) # 0
BOdd(a) == a # <<>> /\ (a[1] % 2) = 1
RECURSIVE TZ(_)
TZ(n) == IF (n % 2) = 1 THEN 0 ELSE 1 + TZ(n \div 2)
BTrailZeros(a) == \* a # 0
  LET i == SelectInSeq(a, LAMBDA x : x # 0) IN 12 * (i - 1) + TZ(a[i])

(* Largest d in lo..hi with d*b <= r *)
RECURSIVE QDigit(_, _, _, _)
QDigit(r, b, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2
       IN IF BLe(BMulSmall(b, mid), r) THEN QDigit(r, b, mid, hi) ELSE QDigit(r, b, lo, mid - 1)
BDivModOf(a, b) == \* b # 0
  IF BCmp(a, b) < 0 THEN [q |-> <<>>, r |-> a]
  ELSE IF BSmall(a) THEN [q |-> BNat(BVal(a) \div BVal(b)), r |-> BNat((BVal(a) % BVal(b)))]
  ELSE IF Len(b) = 1 THEN
    LET f == FoldRight(LAMBDA x, acc : LET t == acc.r * LB + x IN [r |-> (t % b[1]), q |-> <<t \div b[1]>> \o acc.q],
                       a, [r |-> 0, q |-> <<>>])
    IN [q |-> BTrim(f.q), r |-> BNat(f.r)]
  ELSE
    \* long division, with the divisor shifted so that its leading limb tells a digit to within a few
    LET s == 12 - BitsOf(b[Len(b)])
        bs == BShl(b, s)
        n == Len(bs)
        top == bs[n]
        f == FoldRight(LAMBDA x, acc : LET t == IF acc.r = <<>> /\ x = 0 THEN <<>> ELSE <<x>> \o acc.r
                                           lead == BLimb(t, n) + LB * BLimb(t, n + 1)
                                           d == IF BCmp(t, bs) < 0 THEN 0
                                                ELSE QDigit(t, bs, Max2(1, lead \div (top + 1)), Min2(LB - 1, lead \div top))
                                       IN [r |-> IF d = 0 THEN t ELSE BSub(t, BMulSmall(bs, d)), q |-> <<d>> \o acc.q],
                       BShl(a, s), [r |-> <<>>, q |-> <<>>])
    IN [q |-> BTrim(f.q), r |-> BShr(f.r, s)]
BDivModFcn[q \in Any] == BDivModOf(q.a, q.b)
BDivMod(a, b) == BDivModFcn[[a |-> a, b |-> b]]

Pow10s == FoldLeft(LAMBDA acc, i : Append(acc, BMulSmall(Last(acc), 10)), <<BOne>>, Idx(400))     \* TLC makes these once
RECURSIVE BPow10(_)
BPow10(k) == IF k <= 400 THEN Pow10s[k + 1] ELSE BMul(Pow10s[401], BPow10(k - 400))
(* The value of a sequence of decimal digit bytes. *)
BFromDigits(ds) == FoldLeft(LAMBDA acc, c : BAdd(BMulSmall(acc, 10), IF c = 48 THEN <<>> ELSE <<c - 48>>), <<>>, ds)
RECURSIVE BThousands(_)
BThousands(a) == \* digits in base 1000, most significant first
  IF a = <<>> THEN <<>> ELSE LET d == BDivMod(a, <<1000>>) IN Append(BThousands(d.q), BVal(d.r))
BDigits(a) == \* decimal digits (bytes), most significant first; <<>> for zero
  LET t == BThousands(a)
      ds == FlattenSeq(TLCEval([i \in 1..Len(t) |-> <<48 + t[i] \div 100, 48 + ((t[i] \div 10) % 10), 48 + (t[i] % 10)>>]))
      z == SelectInSeq(ds, LAMBDA c : c # 48)
  IN IF z = 0 THEN <<>> ELSE SubSeq(ds, z, Len(ds))
=============================================================================
