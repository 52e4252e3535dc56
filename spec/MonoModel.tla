------------------------------ MODULE MonoModel ------------------------------
(* Design model of the monochrome painter: one pending run, flushed when    *)
(* the next visible span does not continue it. It is checked against Mono,  *)
(* which looks at the whole rasterization at once, for all span sequences   *)
(* over a small grid, cut into batches in all ways, two rasterizations.     *)
(* Design = "code" is what is implemented; TLC refutes the others: a run    *)
(* continues whatever its row ("row"), a visible span continues the run     *)
(* across a gap ("gap"), the pending run is handed on at the end of every   *)
(* batch ("batch"), is left for the next rasterization ("left"), a run is   *)
(* not forgotten when it has been handed on ("kept").                       *)
EXTENDS Paint, BehBase
CONSTANTS W, Rows, MaxBatches, Gen, Design
VARIABLES ss,       \* spans of the current rasterization
          bs,       \* the batches so far, and the current one last
          y, x0, x1, out, fin, hist

vars == <<ss, bs, y, x0, x1, out, fin, hist>>
Init == /\ ss = << >> /\ bs = << << >> >> /\ y = 0 /\ x0 = 0 /\ x1 = 0
        /\ out = << >> /\ fin = FALSE /\ hist = << >>

Ordered(s) == IF Len(ss) = 0 THEN TRUE
              ELSE LET l == ss[Len(ss)] IN IF s[1] > l[1] THEN TRUE ELSE s[1] = l[1] /\ s[2] >= l[3]

Feed(s) ==
  /\ ~fin /\ Ordered(s)
  /\ ss' = Append(ss, s)
  /\ bs' = [bs EXCEPT ![Len(bs)] = Append(@, s)]
  /\ IF s[4] < 32768 THEN UNCHANGED <<y, x0, x1, out>>
     ELSE IF (y = s[1] \/ (Design = "row" /\ x0 < x1)) /\ (x1 = s[2] \/ (Design = "gap" /\ x0 < x1)) THEN x1' = s[3] /\ UNCHANGED <<y, x0, out>>
     ELSE /\ out' = IF x0 < x1 THEN Append(out, <<y, x0, x1, 65535>>) ELSE out
          /\ y' = s[1] /\ x0' = s[2] /\ x1' = s[3]
  /\ UNCHANGED <<fin, hist>>

Cut == /\ ~fin /\ Len(bs) < MaxBatches /\ bs' = Append(bs, << >>)
       /\ IF Design = "batch" /\ x0 < x1
          THEN out' = Append(out, <<y, x0, x1, 65535>>) /\ y' = 0 /\ x0' = 0 /\ x1' = 0
          ELSE UNCHANGED <<y, x0, x1, out>>
       /\ UNCHANGED <<ss, fin, hist>>

Done == /\ ~fin /\ fin' = TRUE
        /\ out' = IF x0 < x1 /\ Design # "left" THEN Append(out, <<y, x0, x1, 65535>>) ELSE out
        /\ IF Design \in {"left", "kept"} THEN UNCHANGED <<y, x0, x1>>
           ELSE y' = 0 /\ x0' = 0 /\ x1' = 0
        /\ UNCHANGED <<ss, bs, hist>>

Again == /\ fin /\ Len(hist) < 1 /\ hist' = Append(hist, bs)
         /\ ss' = << >> /\ bs' = << << >> >> /\ out' = << >> /\ fin' = FALSE
         /\ UNCHANGED <<y, x0, x1>>

Spans == {<<r, a, b, v>> : r \in Rows, a \in 0..(W - 1), b \in 1..W, v \in {32767, 32768}}
Next == (\E s \in Spans : s[2] < s[3] /\ Feed(s)) \/ Cut \/ Done \/ Again

Correct == fin => out = Mono(ss)

(* A second rasterization starts from the state of the first. *)
Reset == (Len(ss) = 0 /\ ~fin) => x0 >= x1 /\ out = << >>

Emit == (Gen /\ fin /\ Len(hist) = 1) => EmitBehaviour([rasters |-> Append(hist, bs)])
View == <<ss, y, x0, x1, out, fin, IF Gen THEN bs ELSE <<>>, IF Gen THEN hist ELSE <<Len(hist)>> >>
=============================================================================
