-------------------------------- MODULE Fns --------------------------------
(***************************************************************************)
(* The predefined functions: Call(name, args) is a value, or E for an      *)
(* unknown function or a wrong number of arguments.                        *)
(***************************************************************************)
EXTENDS Coerce, Regex
FnNames == {"abs", "avg", "ceil", "contains", "ends_with", "floor", "keys", "length", "max", "min",
            "prod", "starts_with", "sum", "to_number", "tokenize"}
FnTable == [ b \in { Ascii(s) : s \in FnNames } |-> CHOOSE s \in FnNames : Ascii(s) = b ]
Arity(f) == CASE f \in {"contains", "ends_with", "starts_with", "tokenize"} -> 2
              [] f \in {"max", "min"} -> -1
              [] OTHER -> 1

FloatFold(op(_, _), base, els) == FoldLeft(LAMBDA acc, v : op(acc, AsFlt(v)), base, els)
AllArith(els) == \A i \in 1..Len(els) : IsArith(els[i])
Better(f, x, y) == IF f = "max" THEN FCmp(x, y) > 0 ELSE FCmp(x, y) < 0
Extreme(f, els) ==
  IF els = <<>> THEN NullV
  ELSE IF els[1].t = "n" THEN
    IF ~AllArith(els) THEN NothingV
    ELSE IF \E i \in 1..Len(els) : AsNum(els[i]).k = "nan" THEN PoisonV      \* NaN has no place in the order
    ELSE FoldLeft(LAMBDA acc, v : IF Better(f, AsFlt(v), acc) THEN AsFlt(v) ELSE acc, AsFlt(els[1]), els)
  ELSE IF els[1].t = "s" THEN
    IF \E i \in 1..Len(els) : els[i].t # "s" THEN NothingV
    ELSE FoldLeft(LAMBDA acc, v : LET c == CmpBytes(v.s, acc.s) IN IF (f = "max" /\ c > 0) \/ (f = "min" /\ c < 0) THEN v ELSE acc,
                  els[1], els)
  ELSE NothingV

Tokens(s, pat) ==
  LET re == ParseRE(pat) IN
  IF re.ok = "bad" THEN NothingV
  ELSE IF re.ok = "U" THEN PoisonV
  ELSE IF ~SplitKnown(re, s) THEN PoisonV
  ELSE ArrV(LET p == RESplit(re, pat, s) IN TLCEval([i \in 1..Len(p) |-> StrV(p[i])]))

Apply(f, a) == \* a: arguments, right number
  CASE f = "abs" -> (IF ~IsNum(a[1]) THEN NothingV
                     ELSE IF a[1].k = "i" THEN (IF a[1].g = 1 /\ a[1].m = Two63 THEN NothingV ELSE [a[1] EXCEPT !.g = 0])
                     ELSE [a[1] EXCEPT !.g = 0])
    [] f = "avg" -> (IF a[1].t = "K" THEN (IF a[1].a = <<>> THEN NullV ELSE NothingV)
                     ELSE IF a[1].t # "a" THEN NothingV
                     ELSE IF a[1].a = <<>> THEN NullV
                     ELSE IF ~AllArith(a[1].a) THEN NothingV
                     ELSE FDiv(FloatFold(FAdd, FZero(0), a[1].a), ToFlt(IntN(Len(a[1].a)))))
    [] f = "ceil" -> (IF ~IsNum(a[1]) THEN NothingV ELSE FCeil(a[1]))
    [] f = "floor" -> (IF ~IsNum(a[1]) THEN NothingV ELSE FFloor(a[1]))
    [] f = "contains" -> (IF a[1].t = "s" THEN (IF a[2].t = "s" THEN BoolV(HasSub(a[1].s, a[2].s)) ELSE NothingV)
                          ELSE IF a[1].t \in {"a", "K"} THEN Member(a[1].a, a[2])
                          ELSE NothingV)
    [] f = "ends_with" -> (IF a[1].t = "s" /\ a[2].t = "s" THEN BoolV(EndsWith(a[1].s, a[2].s)) ELSE NothingV)
    [] f = "starts_with" -> (IF a[1].t = "s" /\ a[2].t = "s" THEN BoolV(StartsWith(a[1].s, a[2].s)) ELSE NothingV)
    [] f = "keys" -> (IF a[1].t # "o" THEN NothingV
                      ELSE [t |-> IF Len(a[1].k) > 1 THEN "K" ELSE "a", a |-> TLCEval([i \in 1..Len(a[1].k) |-> StrV(a[1].k[i])])])
    [] f = "length" -> (CASE a[1].t = "s" -> IntN(RuneCount(a[1].s))
                          [] a[1].t \in {"a", "K"} -> IntN(Len(a[1].a))
                          [] a[1].t = "o" -> IntN(Len(a[1].k))
                          [] OTHER -> NullV)
    [] f \in {"max", "min"} -> (IF a = <<>> THEN NullV
                                ELSE IF Len(a) = 1 THEN (IF a[1].t \in {"a", "K"} THEN Extreme(f, a[1].a) ELSE NothingV)
                                ELSE Extreme(f, a))
    [] f = "prod" -> (IF a[1].t = "K" THEN NothingV
                      ELSE IF a[1].t # "a" THEN NothingV
                      ELSE IF a[1].a = <<>> THEN NullV
                      ELSE IF ~AllArith(a[1].a) THEN NothingV
                      ELSE FloatFold(FMul, AsFlt(a[1].a[1]), SubSeq(a[1].a, 2, Len(a[1].a))))
    [] f = "sum" -> (IF a[1].t = "K" THEN NothingV
                     ELSE IF a[1].t # "a" THEN NothingV
                     ELSE IF ~AllArith(a[1].a) THEN NothingV
                     ELSE FloatFold(FAdd, FZero(0), a[1].a))
    [] f = "to_number" -> (IF IsNum(a[1]) THEN a[1]
                           ELSE IF a[1].t = "s" THEN LET p == ParseFloat(a[1].s) IN IF p = Fail THEN NothingV ELSE p
                           ELSE NothingV)
    [] f = "tokenize" -> (IF a[1].t = "s" /\ a[2].t = "s" THEN Tokens(a[1].s, a[2].s) ELSE NothingV)

Call(name, args) ==
  IF name \notin DOMAIN FnTable THEN ErrV
  ELSE LET f == FnTable[name] IN
       IF Arity(f) >= 0 /\ Len(args) # Arity(f) THEN ErrV
       ELSE IF \E i \in 1..Len(args) : args[i].t = "U" THEN PoisonV
       ELSE Apply(f, args)
=============================================================================
