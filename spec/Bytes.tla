------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Strings as sequences of bytes, the way the lexer and the JSON values    *)
(* see them, with the UTF-8 decoding and encoding that the code relies on. *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt

Chars == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CharAt(s, i) == SubSeq(s, i, i)
CharSet == { CharAt(Chars, i) : i \in 1..Len(Chars) }
CodeOf == [ c \in CharSet |-> 31 + (CHOOSE i \in 1..Len(Chars) : CharAt(Chars, i) = c) ]
(* The bytes of a printable TLA+ string. *)
Ascii(s) == [ i \in 1..Len(s) |-> CodeOf[CharAt(s, i)] ]
(* ... and back, for messages only. *)
TextOf(b) == FoldLeft(LAMBDA acc, c : acc \o (IF c \in 32..126 THEN CharAt(Chars, c - 31) ELSE "?"), "", b)

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

IsDigitB(c) == c >= 48 /\ c <= 57
IsHexB(c) == IsDigitB(c) \/ (c >= 97 /\ c <= 102) \/ (c >= 65 /\ c <= 70)
HexVal(c) == IF IsDigitB(c) THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55
IsLetterB(c) == (c >= 97 /\ c <= 122) \/ (c >= 65 /\ c <= 90) \/ c = 95 \/ c >= 128
IsSpaceB(c) == c \in {32, 9, 10, 13, 12, 11}

(* Lexicographic order on bytes: negative, zero or positive. *)
CmpBytes(a, b) ==
  LET n == Min2(Len(a), Len(b))
      d == SelectInSeq(TLCEval([i \in 1..n |-> a[i] # b[i]]), LAMBDA x : x)
  IN IF d = 0 THEN Len(a) - Len(b) ELSE a[d] - b[d]

OccursAt(sub, s, i) == \* sub occurs in s at (1-based) position i
  /\ i + Len(sub) - 1 <= Len(s)
  /\ \A j \in 1..Len(sub) : s[i + j - 1] = sub[j]
HasSub(s, sub) == \E i \in 1..(Len(s) - Len(sub) + 1) : OccursAt(sub, s, i)
StartsWith(s, p) == OccursAt(p, s, 1)
EndsWith(s, p) == Len(p) <= Len(s) /\ OccursAt(p, s, Len(s) - Len(p) + 1)

(* UTF-8. RuneAt(s, i) is the rune starting at i and its width; an invalid byte is U+FFFD of width 1. *)
Cont(s, i) == i <= Len(s) /\ s[i] >= 128 /\ s[i] <= 191
RuneAt(s, i) ==
  LET c == s[i] bad == [r |-> 65533, w |-> 1] IN
  IF c < 128 THEN [r |-> c, w |-> 1]
  ELSE IF c >= 194 /\ c <= 223 THEN
    IF Cont(s, i+1) THEN [r |-> (c - 192) * 64 + s[i+1] - 128, w |-> 2] ELSE bad
  ELSE IF c >= 224 /\ c <= 239 THEN
    IF /\ Cont(s, i+1) /\ Cont(s, i+2)
       /\ (c = 224 => s[i+1] >= 160) /\ (c = 237 => s[i+1] <= 159)
    THEN [r |-> (c - 224) * 4096 + (s[i+1] - 128) * 64 + s[i+2] - 128, w |-> 3] ELSE bad
  ELSE IF c >= 240 /\ c <= 244 THEN
    IF /\ Cont(s, i+1) /\ Cont(s, i+2) /\ Cont(s, i+3)
       /\ (c = 240 => s[i+1] >= 144) /\ (c = 244 => s[i+1] <= 143)
    THEN [r |-> (c - 240) * 262144 + (s[i+1] - 128) * 4096 + (s[i+2] - 128) * 64 + s[i+3] - 128, w |-> 4] ELSE bad
  ELSE bad

RuneStarts(s) == \* next: where the next rune starts
  FoldLeft(LAMBDA acc, i : IF i < acc.next THEN acc
                           ELSE LET q == RuneAt(s, i) IN [next |-> i + q.w, rs |-> Append(acc.rs, [r |-> q.r, w |-> q.w, at |-> i])],
           [next |-> 1, rs |-> <<>>], TLCEval([i \in 1..Len(s) |-> i])).rs
(* The runes of s: sequence of [r, w, at]. *)
RunesOf(s) == IF \A i \in 1..Len(s) : s[i] < 128
              THEN TLCEval([i \in 1..Len(s) |-> [r |-> s[i], w |-> 1, at |-> i]])
              ELSE RuneStarts(s)
RuneCount(s) == Len(RunesOf(s))

EncodeRune(r) ==
  IF r < 128 THEN <<r>>
  ELSE IF r < 2048 THEN <<192 + r \div 64, 128 + (r % 64)>>
  ELSE IF r \in 55296..57343 THEN <<239, 191, 189>>
  ELSE IF r < 65536 THEN <<224 + r \div 4096, 128 + ((r \div 64) % 64), 128 + (r % 64)>>
  ELSE <<240 + r \div 262144, 128 + ((r \div 4096) % 64), 128 + ((r \div 64) % 64), 128 + (r % 64)>>
=============================================================================
