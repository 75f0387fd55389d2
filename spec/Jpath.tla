------------------------------- MODULE Jpath -------------------------------
(***************************************************************************)
(* The jpath command.  Its input is a list of sources (standard input, or  *)
(* the named files in turn), each missing or a list of items: a JSON value *)
(* with what the path makes of it, or text that is no JSON value.  Its     *)
(* output is a list of result lists on a sink that may fail, an exit       *)
(* status and whether there is a message on standard error.                *)
(*   source  [missing |-> BOOLEAN, items |-> <<item, ...>>]                *)
(*   item    [k |-> "val", R |-> forest or stop node] or [k |-> "bad"]     *)
(*   run     [ok |-> was the path compiled, src |-> sources,               *)
(*            sink |-> "all" | "full" | "limit"]                           *)
(*   answer  [code, msg, lists |-> <<[vs, sep], ...>>, tail]               *)
(* tail: is there anything on standard output beside complete lists, each  *)
(* followed by a line end; sep: is each list laid out as asked for?        *)
(***************************************************************************)
EXTENDS Eval

Missing1 == [k |-> "bad"]
(* what there is to process, up to and including the first failure *)
Flat(src) == FoldLeft(LAMBDA acc, f : IF f.missing THEN Append(acc, Missing1) ELSE acc \o f.items, <<>>, src)
Failing(it) == it.k = "bad" \/ it.R.f = "stop"
FirstFail(items) == SelectInSeq(items, Failing)       \* 0: none
GoodItems(items) == LET n == FirstFail(items) IN IF n = 0 THEN items ELSE SubSeq(items, 1, n - 1)
Unknown(run) == run.ok /\ LET items == Flat(run.src) n == FirstFail(items)
                          IN n # 0 /\ items[n].k = "val" /\ items[n].R.v.t = "U"
(* May a run end so? *)
CliAllows(run, ans) ==
  LET items == IF run.ok THEN Flat(run.src) ELSE <<>>
      good == GoodItems(items)
      fails == ~run.ok \/ FirstFail(items) # 0
      n == Len(ans.lists)
      lost == n < Len(good) \/ ans.tail     \* the sink did not take everything
      reads(i) == ans.lists[i].sep /\ Reads(good[i].R, ans.lists[i].vs)
  IN /\ n <= Len(good)
     /\ \A i \in 1..n : reads(i)
     /\ (run.sink = "all" => ~lost)
     /\ IF fails \/ lost THEN ans.code # 0 /\ ans.msg ELSE ans.code = 0
CliVerdict(run, ans) == IF Unknown(run) THEN "skip" ELSE IF CliAllows(run, ans) THEN "ok" ELSE "bad"
=============================================================================
