-------------------------------- MODULE JsonText --------------------------------
(***************************************************************************)
(* JSON texts (RFC 8259) as values, with numbers as doubles and the last   *)
(* of equal member names winning, as encoding/json has it.                 *)
(***************************************************************************)
EXTENDS Eval

JWS(c) == c \in {32, 9, 10, 13}
RECURSIVE SkipWS(_, _)
SkipWS(S, i) == IF i <= Len(S) /\ JWS(S[i]) THEN SkipWS(S, i + 1) ELSE i
JNo == [ok |-> FALSE]
JYes(v, n) == [ok |-> TRUE, v |-> v, n |-> n]
JAt(S, i) == IF i <= Len(S) THEN S[i] ELSE -1
RECURSIVE JDigits(_, _)
JDigits(S, i) == IF JAt(S, i) # -1 /\ IsDigitB(S[i]) THEN JDigits(S, i + 1) ELSE i
JNumber(S, i) == \* -? (0 | [1-9][0-9]*) (. [0-9]+)? ([eE] [+-]? [0-9]+)?
  LET a == IF JAt(S, i) = 45 THEN i + 1 ELSE i
      b == JDigits(S, a)
      intOK == b > a /\ (S[a] # 48 \/ b = a + 1)
      c == IF JAt(S, b) = 46 THEN JDigits(S, b + 1) ELSE b
      fracOK == JAt(S, b) # 46 \/ c > b + 1
      e == IF JAt(S, c) \in {69, 101} THEN (IF JAt(S, c + 1) \in {43, 45} THEN c + 2 ELSE c + 1) ELSE c
      d == IF e = c THEN c ELSE JDigits(S, e)
      expOK == e = c \/ d > e
  IN IF ~intOK \/ ~fracOK \/ ~expOK THEN JNo
     ELSE LET v == ParseFloat(SubSeq(S, i, d - 1)) IN IF v = Fail THEN JNo ELSE JYes(v, d)
Surr(u) == u >= 55296 /\ u <= 57343
Hex4(S, i) == IF i + 3 > Len(S) \/ \E j \in i..(i + 3) : ~IsHexB(S[j]) THEN -1
              ELSE FoldLeft(LAMBDA a, c : a * 16 + HexVal(c), 0, SubSeq(S, i, i + 3))
JEsc == (34 :> 34) @@ (92 :> 92) @@ (47 :> 47) @@ (98 :> 8) @@ (102 :> 12) @@ (110 :> 10) @@ (114 :> 13) @@ (116 :> 9)
(* a string, i just after the opening quote; acc: its bytes so far *)
JString(S, i0) ==
  LET f[q \in Any] ==
        LET i == q[1] acc == q[2] c == JAt(S, i) IN
        IF c = -1 \/ c < 32 THEN JNo
        ELSE IF c = 34 THEN JYes(acc, i + 1)
        ELSE IF c # 92 THEN f[<<i + 1, Append(acc, c)>>]
        ELSE IF JAt(S, i + 1) \in DOMAIN JEsc THEN f[<<i + 2, Append(acc, JEsc[S[i + 1]])>>]
        ELSE IF JAt(S, i + 1) # 117 THEN JNo
        ELSE LET u == Hex4(S, i + 2) IN
             IF u = -1 THEN JNo
             ELSE IF ~Surr(u) THEN f[<<i + 6, acc \o EncodeRune(u)>>]
             ELSE LET w == IF JAt(S, i + 6) = 92 /\ JAt(S, i + 7) = 117 THEN Hex4(S, i + 8) ELSE -1 IN
                  IF u < 56320 /\ w >= 56320 /\ w <= 57343
                  THEN f[<<i + 12, acc \o EncodeRune(65536 + (u - 55296) * 1024 + (w - 56320))>>]
                  ELSE f[<<i + 6, acc \o EncodeRune(65533)>>]
  IN f[<<i0, <<>>>>]
(* members in order of name *)
PutMember(o, k, v) ==
  LET n == Cardinality({ j \in 1..Len(o.k) : CmpBytes(o.k[j], k) < 0 })
  IN IF n < Len(o.k) /\ o.k[n + 1] = k THEN [o EXCEPT !.v[n + 1] = v]
     ELSE [o EXCEPT !.k = SubSeq(@, 1, n) \o <<k>> \o SubSeq(@, n + 1, Len(@)),
                    !.v = SubSeq(@, 1, n) \o <<v>> \o SubSeq(@, n + 1, Len(@))]
Word(S, i, w, v) == IF OccursAt(Ascii(w), S, i) THEN JYes(v, i + Len(w)) ELSE JNo
JValue(S, i0) ==
  LET f[q \in Any] ==
        LET i == SkipWS(S, q.i) c == JAt(S, i) IN
        CASE q.w = "value" ->
               (CASE c = 123 -> (LET j == SkipWS(S, i + 1) e == [t |-> "o", k |-> <<>>, v |-> <<>>] IN
                                 IF JAt(S, j) = 125 THEN JYes(e, j + 1) ELSE f[[w |-> "members", i |-> j, acc |-> e]])
                  [] c = 91 -> (LET j == SkipWS(S, i + 1) IN
                                IF JAt(S, j) = 93 THEN JYes(ArrV(<<>>), j + 1) ELSE f[[w |-> "elements", i |-> j, acc |-> <<>>]])
                  [] c = 34 -> (LET s == JString(S, i + 1) IN IF ~s.ok THEN s ELSE JYes(StrV(s.v), s.n))
                  [] c = 116 -> Word(S, i, "true", TrueV)
                  [] c = 102 -> Word(S, i, "false", FalseV)
                  [] c = 110 -> Word(S, i, "null", NullV)
                  [] OTHER -> JNumber(S, i))
          [] q.w = "elements" ->
               LET e == f[[w |-> "value", i |-> i]] IN
               IF ~e.ok THEN e
               ELSE LET j == SkipWS(S, e.n) a == Append(q.acc, e.v) IN
                    CASE JAt(S, j) = 44 -> f[[w |-> "elements", i |-> j + 1, acc |-> a]]
                      [] JAt(S, j) = 93 -> JYes(ArrV(a), j + 1)
                      [] OTHER -> JNo
          [] q.w = "members" ->
               IF c # 34 THEN JNo
               ELSE LET k == JString(S, i + 1) IN
                    IF ~k.ok THEN k
                    ELSE LET j == SkipWS(S, k.n) IN
                         IF JAt(S, j) # 58 THEN JNo
                         ELSE LET e == f[[w |-> "value", i |-> j + 1]] IN
                              IF ~e.ok THEN e
                              ELSE LET m == SkipWS(S, e.n) o == PutMember(q.acc, k.v, e.v) IN
                                   CASE JAt(S, m) = 44 -> f[[w |-> "members", i |-> m + 1, acc |-> o]]
                                     [] JAt(S, m) = 125 -> JYes(o, m + 1)
                                     [] OTHER -> JNo
  IN f[[w |-> "value", i |-> i0]]
(* a whole text *)
ParseJson(S) == LET v == JValue(S, 1) IN IF v.ok /\ SkipWS(S, v.n) = Len(S) + 1 THEN v ELSE JNo
Doc(s) == ParseJson(Ascii(s)).v
=============================================================================
