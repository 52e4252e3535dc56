------------------------------ MODULE P01Trace ------------------------------
(* P01: malformed files are rejected, well-formed ones accepted, and no     *)
(* query panics (a panic or a hang is recorded as out.fail).                *)
EXTENDS Sfnt, TraceBase

J(e) ==
  LET f == e.out.file
      v == Verdict(f)
  IN IF e.out.res.both THEN "a font and an error, or neither"
     ELSE IF v = "reject" /\ e.out.res.ok THEN "a malformed file was accepted"
     ELSE IF v = "accept" /\ ~e.out.res.ok THEN "a well-formed file was rejected"
     ELSE ""
Next == Consume(J)
=============================================================================
