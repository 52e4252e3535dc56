---------------------------- MODULE RasterSweep ----------------------------
(* Design model of turning cells into spans and batches: a sweep over the   *)
(* sorted cells of each row with a running cover, a span buffer that is     *)
(* handed to the painter when it may not have room for one more cell, and a *)
(* final batch.  Units per pixel: 1, so a full pixel has doubled area 2.    *)
(* Design = "code" is what is implemented; TLC refutes the others: the      *)
(* buffer is handed on when full ("full"), spans are not cut at the left    *)
(* edge ("left") or the right edge ("right"), the cover is carried over to  *)
(* the next row ("cover"), the gap after a cell has the cell's own alpha    *)
(* ("gap"), nothing is handed on at the end when the buffer is empty        *)
(* ("empty").                                                               *)
EXTENDS Raster, FiniteSets, TLC

CONSTANTS Design, Wd, Ht,  \* width and height in pixels
          Buf,     \* size of the span buffer
          Kinds    \* possible <<area, cover>> of a cell

VARIABLES cell,    \* [row -> [column -> <<area, cover>> or <<>>]]; columns -1..Wd
          row, col, cover, xi, buf, out, phase

vars == <<cell, row, col, cover, xi, buf, out, phase>>
Cols == (-1)..Wd

AlphaS(a) == Min2(Abs(a), 2)     \* non-zero rule, in halves of a pixel

Init == /\ cell \in [0..(Ht - 1) -> [Cols -> Kinds]]
        /\ row = 0 /\ col = -1 /\ cover = 0 /\ xi = 0 /\ buf = << >>
        /\ out = [spans |-> << >>, batches |-> << >>, dones |-> << >>]
        /\ phase = "sweep"

Emit(b, x0, x1, a) ==
  LET l == IF Design = "left" THEN x0 ELSE Max2(x0, 0)
      h == IF Design = "right" THEN x1 ELSE Min2(x1, Wd)
  IN IF a # 0 /\ l < h THEN Append(b, <<row, l, h, a>>) ELSE b

Paint(b, d) == [spans |-> out.spans \o b, batches |-> Append(out.batches, Len(b)),
                dones |-> Append(out.dones, d)]

Step ==
  /\ phase = "sweep" /\ row < Ht
  /\ IF col > Wd
     THEN /\ row' = row + 1 /\ col' = -1 /\ cover' = (IF Design = "cover" THEN cover ELSE 0) /\ xi' = 0
          /\ UNCHANGED <<buf, out>>
     ELSE IF cell[row][col] = << >>
     THEN col' = col + 1 /\ UNCHANGED <<row, cover, xi, buf, out>>
     ELSE LET b1 == IF cover # 0 /\ col > xi THEN Emit(buf, xi, col, AlphaS((2 * cover) - (IF Design = "gap" THEN cell[row][col][1] ELSE 0))) ELSE buf
              cv == cover + cell[row][col][2]
              b2 == Emit(b1, col, col + 1, AlphaS(2 * cv - cell[row][col][1]))
          IN /\ cover' = cv /\ xi' = col + 1 /\ col' = col + 1
             /\ IF Len(b2) > Buf - (IF Design = "full" THEN 1 ELSE 2)
                THEN out' = Paint(b2, 0) /\ buf' = << >>
                ELSE out' = out /\ buf' = b2
             /\ UNCHANGED row
  /\ UNCHANGED <<cell, phase>>

Finish ==
  /\ phase = "sweep" /\ row = Ht
  /\ out' = (IF Design = "empty" /\ buf = << >> THEN out ELSE Paint(buf, 1)) /\ buf' = << >> /\ phase' = "done"
  /\ UNCHANGED <<cell, row, col, cover, xi>>

Next == Step \/ Finish

NoOverflow == Len(buf) <= Buf /\ \A k \in DOMAIN out.batches : out.batches[k] <= Buf
WellFormed == phase = "done" => Structure(out, Wd, Ht, 0, 0) = ""

RECURSIVE CoverTo(_, _)
CoverTo(r, c) == IF c < -1 THEN 0
                 ELSE (IF cell[r][c] = << >> THEN 0 ELSE cell[r][c][2]) + CoverTo(r, c - 1)
(* Columns up to the last cell of the row. *)
LastCell(r) == LET s == {c \in Cols : cell[r][c] # << >>}
               IN IF s = {} THEN -2 ELSE CHOOSE c \in s : \A k \in s : k <= c
Exact ==
  phase = "done" =>
    \A r \in 0..(Ht - 1), c \in 0..(Wd - 1) :
      AlphaIn(RowOf(out.spans, r), c, 1) =
        IF c > LastCell(r) THEN 0
        ELSE AlphaS(2 * CoverTo(r, c) - (IF cell[r][c] = << >> THEN 0 ELSE cell[r][c][1]))
=============================================================================
