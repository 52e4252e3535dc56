---------------------------- MODULE InterpModel -----------------------------
(* Design model for H01: the control flow of the bytecode interpreter, as   *)
(* jumps, calls, looped calls and returns under a limit on steps and one on *)
(* the depth of calls, run twice as two glyphs' programs are.  Every short  *)
(* program and function.                                                    *)
(* Design = "code" is what is implemented; TLC refutes the others.          *)
EXTENDS Integers, Sequences
CONSTANTS Design, Steps, Depth
VARIABLES main, func, prog, pc, stack, steps, marks, work, runs, state

Here == {"mark", "back", "stay", "over", "call", "loop2", "loop0"}
Mains == UNION {[1..n -> Here] : n \in 0..3}
Funcs == UNION {[1..n -> Here] : n \in 0..2}
Code(p) == IF p = "main" THEN main ELSE Append(func, "end")

(* The meaning of a program, with at most fuel steps: [left, marks, st]. *)
RECURSIVE Sem(_, _, _, _), Times(_, _, _)
Sem(p, k, d, s) ==      \* from the k'th token of p on, d calls deep
  IF s.st # "ok" THEN s
  ELSE IF s.left = 0 THEN [s EXCEPT !.st = "err"]
  ELSE IF k > Len(Code(p)) THEN s                       \* only main ends so
  ELSE LET t == Code(p)[k]
           r == [s EXCEPT !.left = @ - 1]
       IN CASE t = "mark" -> Sem(p, k + 1, d, [r EXCEPT !.marks = @ + 1])
            [] t = "back" -> Sem(p, 1, d, r)
            [] t = "stay" -> Sem(p, k, d, r)
            [] t = "over" -> IF k + 2 > Len(Code(p)) + (IF p = "main" THEN 1 ELSE 0) THEN [r EXCEPT !.st = "err"] ELSE Sem(p, k + 2, d, r)
            [] t = "end" -> r
            [] t = "loop0" -> IF d >= Depth THEN [r EXCEPT !.st = "err"] ELSE Sem(p, k + 1, d, r)
            [] OTHER -> IF d >= Depth THEN [r EXCEPT !.st = "err"]
                        ELSE Sem(p, k + 1, d, Times(IF t = "call" THEN 1 ELSE 2, d, r))
Times(n, d, s) == IF n = 0 THEN s ELSE Times(n - 1, d, Sem("func", 1, d + 1, s))
Right == LET s == Sem("main", 1, 0, [left |-> Steps - 1, marks |-> 0, st |-> "ok"])
         IN [ok |-> s.st = "ok", marks |-> s.marks]

Init == /\ main \in Mains /\ func \in Funcs
        /\ prog = "main" /\ pc = 1 /\ stack = << >> /\ steps = 0 /\ marks = 0 /\ work = 0
        /\ runs = << >> /\ state = "run"

Finish(ok) ==
  /\ runs' = Append(runs, [ok |-> ok, marks |-> marks])
  /\ IF Len(runs) = 0
     THEN /\ prog' = "main" /\ pc' = 1 /\ marks' = 0 /\ work' = 0 /\ state' = "run"
          /\ stack' = << >>
          /\ steps' = (IF Design = "sum" THEN steps ELSE 0)
     ELSE state' = "done" /\ UNCHANGED <<prog, pc, stack, steps, marks, work>>

Go(p, k, st, m) ==
  /\ prog' = p /\ pc' = k /\ stack' = st /\ marks' = m
  /\ steps' = (IF Design = "percall" /\ Len(st) # Len(stack) THEN 0 ELSE steps + 1)
  /\ work' = work + 1
  /\ UNCHANGED <<runs, state>>
Pop == SubSeq(stack, 1, Len(stack) - 1)
Top == stack[Len(stack)]
Call(n) ==
  IF Len(stack) >= (IF Design = "deeper" THEN Depth + 1 ELSE Depth) THEN Finish(FALSE)
  ELSE IF n = 0 /\ Design # "zero" THEN Go(prog, pc + 1, stack, marks)
  ELSE Go("func", 1, Append(stack, [p |-> prog, k |-> pc, n |-> n]), marks)
Free == Design = "jumps" /\ Code(prog)[pc] \in {"back", "stay"}      \* jumps are not counted
One ==
  IF steps + 1 = Steps /\ (IF pc > Len(Code(prog)) THEN TRUE ELSE ~Free) THEN Finish(FALSE)
  ELSE IF pc > Len(Code(prog)) THEN Finish(TRUE)
  ELSE LET t == Code(prog)[pc]
       IN CASE t = "mark" -> Go(prog, pc + 1, stack, marks + 1)
            [] t \in {"back", "stay"} ->
                 IF Design = "jumps" THEN /\ pc' = (IF t = "back" THEN 1 ELSE pc) /\ work' = (IF work < Steps + 1 THEN work + 1 ELSE work)
                                          /\ UNCHANGED <<prog, stack, steps, marks, runs, state>>
                 ELSE Go(prog, IF t = "back" THEN 1 ELSE pc, stack, marks)
            [] t = "over" -> IF pc + 2 > Len(Code(prog)) + (IF prog = "main" THEN 1 ELSE 0) THEN Finish(FALSE)
                             ELSE Go(prog, pc + 2, stack, marks)
            [] t = "call" -> Call(1)
            [] t = "loop2" -> Call(2)
            [] t = "loop0" -> Call(0)
            [] t = "end" -> IF Top.n > 1 THEN Go("func", 1, Append(Pop, [Top EXCEPT !.n = @ - 1]), marks)
                            ELSE IF Top.n = 0 THEN Go("func", 1, stack, marks)      \* design "zero": once round the clock
                            ELSE Go(Top.p, IF Design = "again" THEN Top.k ELSE Top.k + 1, Pop, marks)
vars == <<main, func, prog, pc, stack, steps, marks, work, runs, state>>
Next == \/ state = "run" /\ One /\ UNCHANGED <<main, func>>
        \/ state = "done" /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Bounded == work <= Steps
Shallow == Len(stack) <= Depth
(* Both runs do what the program means, and fail only for its own work. *)
Means == \A i \in DOMAIN runs : runs[i].ok = Right.ok /\ (runs[i].ok => runs[i].marks = Right.marks)
Ends == <>(state = "done")
=============================================================================
