------------------------------- MODULE Regex -------------------------------
(***************************************************************************)
(* The regular expressions of =~ and tokenize: a subset of the RE2 syntax  *)
(* (literals, ., classes, groups, alternation, the repetitions, anchors,   *)
(* word boundaries, (?i) in front), over runes.  What lies outside the     *)
(* subset is "U": unspecified here.                                        *)
(***************************************************************************)
EXTENDS Bytes

Top == 1114111
Complement(rs) == \* rs: sorted disjoint ranges
  LET f == FoldLeft(LAMBDA acc, q : [lo |-> q[2] + 1, r |-> IF q[1] > acc.lo THEN Append(acc.r, <<acc.lo, q[1] - 1>>) ELSE acc.r],
                    [lo |-> 0, r |-> <<>>], rs)
  IN IF f.lo <= Top THEN Append(f.r, <<f.lo, Top>>) ELSE f.r
DigitR == << <<48, 57>> >>
WordR == << <<48, 57>>, <<65, 90>>, <<95, 95>>, <<97, 122>> >>
SpaceR == << <<9, 10>>, <<12, 13>>, <<32, 32>> >>
InRanges(c, rs) == \E i \in 1..Len(rs) : rs[i][1] <= c /\ c <= rs[i][2]

Bad == [ok |-> "bad"]
Unk == [ok |-> "U"]
Good(n, i) == [ok |-> "ok", n |-> n, i |-> i]
IsGood(r) == r.ok = "ok"

(* nodes *)
Cls(neg, rs) == [r |-> "cls", neg |-> neg, rs |-> rs]
Lit(c) == Cls(FALSE, << <<c, c>> >>)
Cat(s) == [r |-> "cat", k |-> s]
Alt(s) == [r |-> "alt", k |-> s]
Rep(x, lo, hi, lazy) == [r |-> "rep", x |-> x, lo |-> lo, hi |-> hi, lazy |-> lazy]   \* hi = -1: unbounded
Bol == [r |-> "bol"]
Eol == [r |-> "eol"]
Wb(yes) == [r |-> "wb", yes |-> yes]

(* P is a sequence of runes, i a position in it *)
At(P, i) == IF i <= Len(P) THEN P[i] ELSE -1
IsAlnumR(c) == (c >= 48 /\ c <= 57) \/ (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)

(* the escape after a backslash at position i: ranges of a class, or one rune *)
EscSet(c) == CASE c = 100 -> DigitR [] c = 119 -> WordR [] c = 115 -> SpaceR
               [] c = 68 -> Complement(DigitR) [] c = 87 -> Complement(WordR) [] c = 83 -> Complement(SpaceR)
               [] OTHER -> <<>>
EscChar(c) == \* -1: malformed, -2: unspecified here
  IF c = -1 THEN -1
  ELSE IF c >= 128 THEN -1
  ELSE IF ~IsAlnumR(c) THEN c
  ELSE CASE c = 97 -> 7 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] c = 118 -> 11
         [] c \in {120, 112, 80, 81, 67, 69} \cup (48..57) -> -2
         [] OTHER -> -1

IsHexR(c) == (c >= 48 /\ c <= 57) \/ (c >= 97 /\ c <= 102) \/ (c >= 65 /\ c <= 70)
RECURSIVE HexRun(_, _, _)
HexRun(P, i, acc) == IF IsHexR(At(P, i)) /\ Len(acc) < 7 THEN HexRun(P, i + 1, Append(acc, HexVal(At(P, i)))) ELSE [d |-> acc, i |-> i]
(* the escaped character whose backslash is at i: [c, i], c as in EscChar; \xHH and \x{H...} are hexadecimal *)
EscAt(P, i) ==
  IF At(P, i + 1) # 120 THEN [c |-> EscChar(At(P, i + 1)), i |-> i + 2]
  ELSE IF At(P, i + 2) = 123 THEN
    LET h == HexRun(P, i + 3, <<>>) v == FoldLeft(LAMBDA a, d : 16 * a + d, 0, h.d) IN
    IF h.d = <<>> \/ Len(h.d) > 6 \/ At(P, h.i) # 125 \/ v > Top THEN [c |-> -2, i |-> i] ELSE [c |-> v, i |-> h.i + 1]
  ELSE IF IsHexR(At(P, i + 2)) /\ IsHexR(At(P, i + 3)) THEN [c |-> 16 * HexVal(At(P, i + 2)) + HexVal(At(P, i + 3)), i |-> i + 4]
  ELSE [c |-> -2, i |-> i]
(* named classes, as in [[:alpha:]] *)
Range1(a, b) == << <<a, b>> >>
Named == << <<Ascii("alpha"), Range1(65, 90) \o Range1(97, 122)>>, <<Ascii("digit"), DigitR>>, <<Ascii("word"), WordR>>,
            <<Ascii("alnum"), Range1(48, 57) \o Range1(65, 90) \o Range1(97, 122)>>, <<Ascii("upper"), Range1(65, 90)>>,
            <<Ascii("lower"), Range1(97, 122)>>, <<Ascii("space"), Range1(9, 13) \o Range1(32, 32)>>,
            <<Ascii("blank"), Range1(9, 9) \o Range1(32, 32)>>, <<Ascii("xdigit"), Range1(48, 57) \o Range1(65, 70) \o Range1(97, 102)>>,
            <<Ascii("punct"), Range1(33, 47) \o Range1(58, 64) \o Range1(91, 96) \o Range1(123, 126)>>,
            <<Ascii("ascii"), Range1(0, 127)>>, <<Ascii("cntrl"), Range1(0, 31) \o Range1(127, 127)>>,
            <<Ascii("graph"), Range1(33, 126)>>, <<Ascii("print"), Range1(32, 126)>> >>
NamedAt(P, i) == \* at [: -- the number of the class in Named, or 0
  SelectInSeq(Named, LAMBDA q : SubSeq(P, i + 2, Min2(Len(P), i + 3 + Len(q[1]))) = q[1] \o <<58, 93>>)

RECURSIVE ClassItems(_, _, _, _)
ClassItems(P, i, first, acc) ==
  LET c == At(P, i) IN
  IF c = -1 THEN Bad
  ELSE IF c = 93 /\ ~first THEN Good(acc, i + 1)
  ELSE IF c = 91 /\ At(P, i + 1) = 58 THEN
    LET q == NamedAt(P, i) IN IF q = 0 THEN Unk ELSE ClassItems(P, i + 4 + Len(Named[q][1]), FALSE, acc \o Named[q][2])
  ELSE IF c = 92 /\ EscSet(At(P, i + 1)) # <<>> THEN ClassItems(P, i + 2, FALSE, acc \o EscSet(At(P, i + 1)))
  ELSE LET lo == IF c = 92 THEN EscAt(P, i).c ELSE c
           j == IF c = 92 THEN EscAt(P, i).i ELSE i + 1
       IN IF lo = -1 THEN Bad ELSE IF lo = -2 THEN Unk
          ELSE IF At(P, j) = 45 /\ At(P, j + 1) # 93 /\ At(P, j + 1) # -1 THEN
            LET d == At(P, j + 1)
                hi == IF d = 92 THEN EscAt(P, j + 1).c ELSE d
                m == IF d = 92 THEN EscAt(P, j + 1).i ELSE j + 2
            IN IF hi = -1 THEN Bad ELSE IF hi = -2 THEN Unk
               ELSE IF hi < lo THEN Bad
               ELSE ClassItems(P, m, FALSE, Append(acc, <<lo, hi>>))
          ELSE ClassItems(P, j, FALSE, Append(acc, <<lo, lo>>))

(* {n}, {n,}, {n,m} at i (the position of the brace): [lo, hi, i] or none *)
RECURSIVE Digits(_, _, _)
Digits(P, i, acc) == IF At(P, i) >= 48 /\ At(P, i) <= 57 /\ i < 1000 THEN Digits(P, i + 1, Append(acc, At(P, i))) ELSE [d |-> acc, i |-> i]
NumOf(d) == IF Len(d) > 4 THEN 9999 ELSE FoldLeft(LAMBDA a, c : 10 * a + c - 48, 0, d)
RepeatAt(P, i) ==
  LET a == Digits(P, i + 1, <<>>) none == [ok |-> FALSE]
      leadZ(d) == Len(d) >= 2 /\ d[1] = 48
  IN IF a.d = <<>> \/ leadZ(a.d) THEN none
     ELSE IF At(P, a.i) = 125 THEN [ok |-> TRUE, lo |-> NumOf(a.d), hi |-> NumOf(a.d), i |-> a.i + 1]
     ELSE IF At(P, a.i) # 44 THEN none
     ELSE LET b == Digits(P, a.i + 1, <<>>) IN
          IF At(P, b.i) # 125 \/ leadZ(b.d) THEN none
          ELSE [ok |-> TRUE, lo |-> NumOf(a.d), hi |-> IF b.d = <<>> THEN -1 ELSE NumOf(b.d), i |-> b.i + 1]
IsQuant(P, i) == At(P, i) \in {42, 43, 63} \/ (At(P, i) = 123 /\ RepeatAt(P, i).ok)

RECURSIVE HasRep(_)
HasRep(n) == CASE n.r \in {"cat", "alt"} -> \E i \in 1..Len(n.k) : HasRep(n.k[i])
               [] n.r = "rep" -> (n.lo > 1 \/ n.hi > 1) \/ HasRep(n.x)
               [] OTHER -> FALSE
Quantified(P, x, i) == \* atom x ends before i
  IF ~IsQuant(P, i) THEN Good(x, i)
  ELSE LET c == At(P, i)
           q == IF c = 42 THEN [lo |-> 0, hi |-> -1, i |-> i + 1]
                ELSE IF c = 43 THEN [lo |-> 1, hi |-> -1, i |-> i + 1]
                ELSE IF c = 63 THEN [lo |-> 0, hi |-> 1, i |-> i + 1] ELSE RepeatAt(P, i)
           lazy == At(P, q.i) = 63
           j == IF lazy THEN q.i + 1 ELSE q.i
       IN IF q.lo > 1000 \/ q.hi > 1000 \/ (q.hi >= 0 /\ q.lo > q.hi) THEN Bad
          ELSE IF IsQuant(P, j) THEN Bad
          ELSE IF c = 123 /\ (q.lo > 200 \/ q.hi > 200 \/ HasRep(x)) THEN Unk
          ELSE Good(Rep(x, q.lo, q.hi, lazy), j)

(* (?P<name> or (?<name> at i: the position after it, or 0; a second name might repeat the first: left alone *)
RECURSIVE WordEnd(_, _)
WordEnd(P, i) == IF At(P, i) # -1 /\ InRanges(At(P, i), WordR) THEN WordEnd(P, i + 1) ELSE i
NameEnd(P, i) ==
  LET j == IF At(P, i + 2) = 80 THEN i + 3 ELSE i + 2 e == WordEnd(P, j + 1) IN
  IF At(P, j) = 60 /\ e > j + 1 /\ At(P, e) = 62 /\ ~\E m \in (i + 3)..Len(P) : P[m] = 63 /\ At(P, m + 1) \in {60, 80} /\ m > j THEN e + 1 ELSE 0

RECURSIVE ReAlt(_, _, _), ReCat(_, _, _), ReAtom(_, _)
ReAlt(P, i, acc) ==
  LET c == ReCat(P, i, <<>>) IN
  IF ~IsGood(c) THEN c
  ELSE IF At(P, c.i) = 124 THEN ReAlt(P, c.i + 1, Append(acc, c.n))
  ELSE Good(IF acc = <<>> THEN c.n ELSE Alt(Append(acc, c.n)), c.i)
ReCat(P, i, acc) ==
  IF At(P, i) \in {-1, 124, 41} THEN Good(Cat(acc), i)
  ELSE IF IsQuant(P, i) THEN Bad    \* nothing to repeat
  ELSE LET a == ReAtom(P, i) IN
       IF ~IsGood(a) THEN a
       ELSE LET q == Quantified(P, a.n, a.i) IN IF ~IsGood(q) THEN q ELSE ReCat(P, q.i, Append(acc, q.n))
ReAtom(P, i) ==
  LET c == At(P, i) IN
  CASE c = 46 -> Good(Cls(TRUE, << <<10, 10>> >>), i + 1)
    [] c = 94 -> Good(Bol, i + 1)
    [] c = 36 -> Good(Eol, i + 1)
    [] c = 40 ->
         LET name == NameEnd(P, i)
             from == IF At(P, i + 1) # 63 THEN i + 1 ELSE IF At(P, i + 2) = 58 THEN i + 3 ELSE name IN
         IF from = 0 THEN Unk
         ELSE LET r == ReAlt(P, from, <<>>)
              IN IF ~IsGood(r) THEN r ELSE IF At(P, r.i) # 41 THEN Bad ELSE Good(r.n, r.i + 1)
    [] c = 91 ->
         LET neg == At(P, i + 1) = 94
             r == ClassItems(P, IF neg THEN i + 2 ELSE i + 1, TRUE, <<>>)
         IN IF ~IsGood(r) THEN r ELSE Good(Cls(neg, r.n), r.i)
    [] c = 92 ->
         LET d == At(P, i + 1) IN
         IF EscSet(d) # <<>> THEN Good(Cls(FALSE, EscSet(d)), i + 2)
         ELSE IF d = 98 THEN Good(Wb(TRUE), i + 2)
         ELSE IF d = 66 THEN Good(Wb(FALSE), i + 2)
         ELSE IF d = 65 THEN Good(Bol, i + 2)
         ELSE IF d = 122 THEN Good(Eol, i + 2)
         ELSE LET e == EscAt(P, i) IN IF e.c = -1 THEN Bad ELSE IF e.c = -2 THEN Unk ELSE Good(Lit(e.c), e.i)
    [] OTHER -> Good(Lit(c), i + 1)

(* The meaning of pattern bytes: [ok |-> "bad" | "U"] or [ok |-> "ok", n, fold]. *)
ParseRE(bytes) ==
  LET rs == RunesOf(bytes)
      P == TLCEval([i \in 1..Len(rs) |-> rs[i].r])
      fold == Len(P) >= 4 /\ SubSeq(P, 1, 4) = <<40, 63, 105, 41>>
      Q == IF fold THEN SubSeq(P, 5, Len(P)) ELSE P
      r == ReAlt(Q, 1, <<>>)
  IN IF \E i \in 1..Len(rs) : rs[i].r = 65533 /\ rs[i].w = 1 THEN Bad
     ELSE IF Len(P) > 1200 THEN Unk
     ELSE IF ~IsGood(r) THEN r
     ELSE IF r.i <= Len(Q) THEN Bad
     ELSE [ok |-> "ok", n |-> r.n, fold |-> fold, ascii |-> \A i \in 1..Len(P) : P[i] < 128 /\ ~(P[i] = 120 /\ At(P, i + 1) = 123)]

(* Matching. T: runes of the subject. *)
Swap(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE IF c >= 97 /\ c <= 122 THEN c - 32 ELSE c
ClsHas(n, c, fold) ==
  LET has == InRanges(c, n.rs) \/ (fold /\ InRanges(Swap(c), n.rs))
  IN IF n.neg THEN ~has ELSE has
WordAt(T, i) == i >= 1 /\ i <= Len(T) /\ InRanges(T[i], WordR)

RECURSIVE EndsAll(_, _, _, _), Closure(_, _, _, _, _), Times(_, _, _, _, _)
Closure(n, S, new, T, fold) == \* S, and what repetitions from new (part of S) reach
  IF new = {} THEN S ELSE LET S2 == EndsAll(n, new, T, fold) \ S IN Closure(n, S \cup S2, S2, T, fold)
Times(n, S, k, T, fold) == IF k = 0 THEN S ELSE Times(n, EndsAll(n, S, T, fold), k - 1, T, fold)
RECURSIVE UpTo(_, _, _, _, _)
UpTo(n, S, k, T, fold) == IF k = 0 \/ S = {} THEN S ELSE S \cup UpTo(n, EndsAll(n, S, T, fold), k - 1, T, fold)
EndsAll(n, S, T, fold) == \* the positions where a match of n beginning at one of S can end
  IF S = {} THEN {} ELSE
  CASE n.r = "cls" -> { i + 1 : i \in { j \in S : j <= Len(T) /\ ClsHas(n, T[j], fold) } }
    [] n.r = "cat" -> FoldLeft(LAMBDA X, x : EndsAll(x, X, T, fold), S, n.k)
    [] n.r = "alt" -> UNION { EndsAll(n.k[j], S, T, fold) : j \in 1..Len(n.k) }
    [] n.r = "rep" -> LET X == Times(n.x, S, n.lo, T, fold)
                      IN IF n.hi < 0 THEN Closure(n.x, X, X, T, fold) ELSE UpTo(n.x, X, n.hi - n.lo, T, fold)
    [] n.r = "bol" -> S \cap {1}
    [] n.r = "eol" -> S \cap {Len(T) + 1}
    [] n.r = "wb" -> { i \in S : (WordAt(T, i - 1) # WordAt(T, i)) = n.yes }
Ends(n, i, T, fold) == EndsAll(n, {i}, T, fold)

(* Folding is that of ASCII: what is not ASCII folds to itself as far as an ASCII pattern can tell, but for
   U+017F and U+212A, which fold to s and k. *)
FoldKnown(re, T) == re.fold => \A i \in 1..Len(T) : T[i] < 128 \/ (re.ascii /\ T[i] \notin {383, 8490})
(* Does the parsed expression match somewhere in the bytes s?  "T", "F" or "U" *)
REMatches(re, s) ==
  LET rs == RunesOf(s)
      T == TLCEval([i \in 1..Len(rs) |-> rs[i].r])
  IN IF ~FoldKnown(re, T) THEN "U"
     ELSE IF EndsAll(re.n, 1..(Len(T) + 1), T, re.fold) # {} THEN "T" ELSE "F"

(* Ordered ends (preferred first), for finding the extent of the leftmost match. *)
RECURSIVE Nullable(_)
Nullable(n) == CASE n.r = "cls" -> FALSE
                 [] n.r = "cat" -> \A i \in 1..Len(n.k) : Nullable(n.k[i])
                 [] n.r = "alt" -> \E i \in 1..Len(n.k) : Nullable(n.k[i])
                 [] n.r = "rep" -> n.lo = 0 \/ Nullable(n.x)
                 [] OTHER -> TRUE
RECURSIVE Regular(_)   \* no repetition of something that can be empty
Regular(n) == CASE n.r \in {"cat", "alt"} -> \A i \in 1..Len(n.k) : Regular(n.k[i])
                [] n.r = "rep" -> ~Nullable(n.x) /\ Regular(n.x)
                [] OTHER -> TRUE
Dedupe(s) == FoldLeft(LAMBDA acc, x : IF \E i \in 1..Len(acc) : acc[i] = x THEN acc ELSE Append(acc, x), <<>>, s)
Concat(ss) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, ss)
RECURSIVE Ord(_, _, _, _), OrdRep(_, _, _, _, _, _, _)
OrdFrom(n, S, T, fold) == Dedupe(Concat(TLCEval([j \in 1..Len(S) |-> Ord(n, S[j], T, fold)])))
OrdRep(n, lo, hi, lazy, i, T, fold) ==
  IF hi = 0 THEN <<i>>
  ELSE LET b == Ord(n, i, T, fold)
           more == Concat(TLCEval([j \in 1..Len(b) |-> OrdRep(n, IF lo = 0 THEN 0 ELSE lo - 1, IF hi < 0 THEN -1 ELSE hi - 1, lazy, b[j], T, fold)]))
       IN IF lo > 0 THEN Dedupe(more) ELSE IF lazy THEN Dedupe(<<i>> \o more) ELSE Dedupe(Append(more, i))
Ord(n, i, T, fold) ==
  CASE n.r = "cat" -> FoldLeft(LAMBDA S, x : OrdFrom(x, S, T, fold), <<i>>, n.k)
    [] n.r = "alt" -> Dedupe(Concat(TLCEval([j \in 1..Len(n.k) |-> Ord(n.k[j], i, T, fold)])))
    [] n.r = "rep" -> OrdRep(n.x, n.lo, n.hi, n.lazy, i, T, fold)
    [] OTHER -> SetToSeq(Ends(n, i, T, fold))

(* leftmost match at or after rune position p: <<from, to>> or <<0, 0>>; starts: where a match can begin, in order *)
ReStarts(re, T) == SelectSeq(TLCEval([i \in 1..(Len(T) + 1) |-> i]), LAMBDA q : Ends(re.n, q, T, re.fold) # {})
From(starts, p) == LET i == SelectInSeq(starts, LAMBDA q : q >= p) IN IF i = 0 THEN <<>> ELSE SubSeq(starts, i, Len(starts))
LeftMost(re, T, starts) == IF starts = <<>> THEN <<0, 0>> ELSE <<starts[1], Ord(re.n, starts[1], T, re.fold)[1]>>
RECURSIVE AllMatches(_, _, _, _, _, _)
AllMatches(re, T, starts, pos, prev, acc) ==
  IF pos > Len(T) + 1 THEN acc
  ELSE LET rest == From(starts, pos)
           m == TLCEval(LeftMost(re, T, rest)) IN
       IF m[1] = 0 THEN acc
       ELSE LET accept == ~(m[2] = pos /\ m[1] = prev)
                next == IF m[2] = pos THEN pos + 1 ELSE m[2]
            IN AllMatches(re, T, rest, next, m[2], IF accept THEN Append(acc, m) ELSE acc)
(* the pieces of s between the matches (sequence of byte strings), or "U" *)
RESplit(re, pat, s) ==
  LET rs == RunesOf(s)
      T == TLCEval([i \in 1..Len(rs) |-> rs[i].r])
      at(i) == IF i > Len(rs) THEN Len(s) + 1 ELSE rs[i].at      \* byte position of rune position
      starts == TLCEval(ReStarts(re, T))
      ms == AllMatches(re, T, starts, 1, 0, <<>>)
      f == FoldLeft(LAMBDA acc, m : [r |-> IF m[2] # 1 THEN Append(acc.r, SubSeq(s, acc.beg, at(m[1]) - 1)) ELSE acc.r,
                                     beg |-> at(m[2]), end |-> at(m[1])],
                    [r |-> <<>>, beg |-> 1, end |-> 1], ms)
  IN IF pat # <<>> /\ s = <<>> THEN << <<>> >>
     ELSE IF f.end # Len(s) + 1 THEN Append(f.r, SubSeq(s, f.beg, Len(s))) ELSE f.r
SplitKnown(re, s) == Regular(re.n) /\ (re.fold => \A i \in 1..Len(s) : s[i] < 128)
=============================================================================
