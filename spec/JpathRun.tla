------------------------------ MODULE JpathRun ------------------------------
(***************************************************************************)
(* How jpath works, step by step, with its buffered output: every run, for *)
(* every small input and every sink, ends, and as Jpath allows.            *)
(* Room is what the sink takes (in units: one list is Size units), Buf the *)
(* size of the buffer; OLD = TRUE is the command before it looked at the   *)
(* last flush's result.                                                    *)
(***************************************************************************)
EXTENDS Jpath
CONSTANTS MaxSrc, MaxItems, Size, Buf, OLD
VARIABLES run, room, pos, buf, out, pc, code, msg, failed
vars == <<run, room, pos, buf, out, pc, code, msg, failed>>
\* pos: items consumed; buf, out: units in the buffer and on the sink; failed: the writer's sticky error

Item == { [k |-> "bad"], [k |-> "val", R |-> StopF(ErrV)], [k |-> "val", R |-> Leaf(NullV)], [k |-> "val", R |-> EmptyF] }
Items == UNION { [1..n -> Item] : n \in 0..MaxItems }
Source == { [missing |-> TRUE, items |-> <<>>] } \cup { [missing |-> FALSE, items |-> s] : s \in Items }
Runs == { [ok |-> o, src |-> s, sink |-> k] : o \in BOOLEAN, s \in UNION { [1..n -> Source] : n \in 1..MaxSrc }, k \in {"all", "full", "limit"} }
Rooms(k) == IF k = "all" THEN {MaxSrc * MaxItems * Size} ELSE IF k = "full" THEN {0} ELSE 0..(MaxSrc * MaxItems * Size)

Init == /\ run \in Runs /\ room \in Rooms(run.sink) /\ pos = 0 /\ buf = 0 /\ out = 0
        /\ pc = "start" /\ code = 0 /\ msg = FALSE /\ failed = FALSE
(* units are written in order, so what is out is a prefix of everything encoded *)
(* bufio: write n units through a buffer of Buf; once a write is short, nothing more is taken *)
Flushed(b, o) == LET k == Min2(b, room - o) IN [out |-> o + k, left |-> b - k]
RECURSIVE Written(_, _, _, _)
Written(n, b, o, f) == \* [buf, out, failed]
  IF f THEN [buf |-> b, out |-> o, failed |-> TRUE]
  ELSE IF n <= Buf - b THEN [buf |-> b + n, out |-> o, failed |-> FALSE]
  ELSE LET k == Buf - b r == Flushed(Buf, o) IN Written(n - k, r.left, r.out, r.left > 0)
Items0 == IF run.ok THEN Flat(run.src) ELSE <<>>
GiveUp == pc' = "fail" /\ UNCHANGED <<run, room, pos, buf, out, code, msg, failed>>
Start == pc = "start" /\ IF run.ok THEN pc' = "read" /\ UNCHANGED <<run, room, pos, buf, out, code, msg, failed>> ELSE GiveUp
Read == /\ pc = "read"
        /\ IF pos = Len(Items0) THEN pc' = "finish" /\ UNCHANGED <<run, room, pos, buf, out, code, msg, failed>>
           ELSE IF Failing(Items0[pos + 1]) THEN GiveUp
           ELSE LET w == Written(Size, buf, out, failed) IN
                /\ pos' = pos + 1
                /\ buf' = w.buf /\ out' = w.out /\ failed' = w.failed
                /\ pc' = IF w.failed THEN "fail" ELSE "read"
                /\ UNCHANGED <<run, room, code, msg>>
FlushNow == IF failed THEN [out |-> out, left |-> buf] ELSE Flushed(buf, out)
LastFlush == /\ pc = "finish"
          /\ LET r == FlushNow IN
             /\ out' = r.out /\ buf' = r.left
             /\ IF r.left > 0 /\ ~OLD THEN code' = 1 /\ msg' = TRUE ELSE UNCHANGED <<code, msg>>
          /\ pc' = "done" /\ UNCHANGED <<run, room, pos, failed>>
Stop == /\ pc = "fail"
        /\ LET r == FlushNow IN out' = r.out /\ buf' = r.left
        /\ code' = 1 /\ msg' = TRUE /\ pc' = "done" /\ UNCHANGED <<run, room, pos, failed>>
Done == pc = "done" /\ UNCHANGED vars
Next == Start \/ Read \/ LastFlush \/ Stop \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Reading(R) == IF R = EmptyF THEN <<>> ELSE <<NullV>>
Answer == LET g == GoodItems(Items0) IN
  [code |-> code, msg |-> msg, tail |-> out % Size # 0,
   lists |-> [i \in 1..(out \div Size) |-> [vs |-> Reading(g[i].R), sep |-> TRUE]]]
EndsAsAllowed == pc = "done" => out \div Size <= Len(GoodItems(Items0)) /\ CliAllows(run, Answer)
(* and what is not allowed: the verdict is not vacuous *)
Strict == pc = "done" =>
  /\ ~CliAllows(run, [Answer EXCEPT !.code = IF @ = 0 THEN 1 ELSE 0])
  /\ (code # 0 => ~CliAllows(run, [Answer EXCEPT !.msg = FALSE]))
  /\ ~CliAllows(run, [Answer EXCEPT !.lists = Append(@, [vs |-> <<FalseV>>, sep |-> TRUE])])
  /\ (Answer.lists # <<>> => ~CliAllows(run, [Answer EXCEPT !.lists = <<[vs |-> <<FalseV>>, sep |-> TRUE]>> \o Tail(@)]))
  /\ (Answer.lists # <<>> => ~CliAllows(run, [Answer EXCEPT !.lists[1].sep = FALSE]))
  /\ (Answer.lists # <<>> /\ run.sink = "all" => ~CliAllows(run, [Answer EXCEPT !.lists = Tail(@)]) \/ Len(Answer.lists) = 0)
Terminates == <>(pc = "done")
=============================================================================
