----------------------------- MODULE RasterDDA -----------------------------
(* Design model of how one straight edge is accumulated into cells: the     *)
(* implementation-shaped incremental algorithm (error terms, one action per *)
(* scanline or cell) is checked, exhaustively on a small grid, to give every*)
(* pixel the closed-form area of module Raster.                             *)
(* Design = "code" is what is implemented; TLC refutes the others: an error *)
(* term that is not carried ("norem": over scanlines, "noyrem": over        *)
(* cells), carried one too late ("late"), the first cell of a leftward run  *)
(* measured from the wrong side ("left"), rounding towards zero ("trunc").  *)
EXTENDS Raster, TLC

CONSTANTS Design,
          Units,   \* units per pixel
          Cols, Rows,
          Margin   \* how far (in units) an edge may leave the grid

ASSUME Units > 0

VARIABLES e,       \* the edge
          pc,      \* "row": start a scanline, "first"/"mid"/"last": inside it, "done"
          x, yi,   \* x at the current scanline boundary, the current row
          rem,     \* error term of x over scanlines
          fst,     \* no scanline has been done yet
          xi, y, yrem, \* current cell, y inside the scanline, error term of y over cells
          seg,     \* <<x0, y0f, x1, y1f>> of the current scanline
          cells    \* accumulated <<area, cover>> by <<row, column>>

vars == <<e, pc, x, yi, rem, fst, xi, y, yrem, seg, cells>>

Pts == ((-Margin)..(Units * Cols + Margin)) \X ((-Margin)..(Units * Rows + Margin))

Floor(a) == a \div Units

Add(r, c, area, cover) ==
  LET old == IF <<r, c>> \in DOMAIN cells THEN cells[<<r, c>>] ELSE <<0, 0>>
  IN (<<r, c>> :> <<old[1] + area, old[2] + cover>>) @@ cells

Init == /\ \E a \in Pts, b \in Pts : e = <<a[1], a[2], b[1], b[2]>>
        /\ pc = "row" /\ x = e[1] /\ yi = Floor(e[2]) /\ rem = 0 /\ fst = TRUE
        /\ xi = 0 /\ y = 0 /\ yrem = 0 /\ seg = <<0, 0, 0, 0>> /\ cells = << >>

Dx == e[3] - e[1]
Dy == e[4] - e[2]
Down == Dy > 0
Last == Floor(e[4])
Q == Abs(Dy)

(* Begin the scanline yi: choose where it ends. *)
Row ==
  /\ pc = "row"
  /\ LET y0f == IF fst THEN e[2] - Units * yi ELSE IF Down THEN 0 ELSE Units
         final == yi = Last
         y1f == IF final THEN e[4] - Units * yi ELSE IF Down THEN Units ELSE 0
         \* x advance, by the quotient and the running remainder
         p == Abs(y1f - y0f) * Dx
         d == IF fst \/ Q = 0 THEN (IF Q = 0 THEN 0 ELSE p \div Q)
              ELSE (Units * Dx) \div Q
         m == IF Q = 0 THEN 0 ELSE IF fst THEN p % Q ELSE (IF Design = "norem" THEN 0 ELSE rem) + ((Units * Dx) % Q)
         x1 == IF final THEN e[3] ELSE x + d + (IF Q # 0 /\ (IF Design = "late" THEN m > Q ELSE m >= Q) THEN 1 ELSE 0)
     IN /\ seg' = <<x, y0f, x1, y1f>>
        /\ rem' = IF Q # 0 /\ m >= Q THEN m - Q ELSE m
        /\ xi' = Floor(x)
        /\ y' = y0f
        /\ pc' = IF y0f = y1f THEN "next" ELSE "first"
        /\ UNCHANGED <<e, x, yi, fst, yrem, cells>>

Right == seg[3] > seg[1]
QX == Abs(seg[3] - seg[1])
DY == seg[4] - seg[2]
Edge0 == IF Right THEN 0 ELSE Units
Edge1 == IF Right THEN Units ELSE 0

First ==
  /\ pc = "first"
  /\ LET x0f == seg[1] - Units * xi IN
     IF Floor(seg[1]) = Floor(seg[3])
     THEN /\ cells' = Add(yi, xi, (x0f + seg[3] - Units * xi) * DY, DY)
          /\ pc' = "next"
          /\ UNCHANGED <<xi, y, yrem>>
     ELSE LET p == (IF Right \/ Design = "left" THEN Units - x0f ELSE x0f) * DY
              d == IF Design = "trunc" /\ p < 0 THEN -((-p) \div QX) ELSE p \div QX
          IN /\ cells' = Add(yi, xi, (x0f + Edge1) * d, d)
             /\ yrem' = p % QX
             /\ y' = y + d
             /\ xi' = IF Right THEN xi + 1 ELSE xi - 1
             /\ pc' = "mid"
  /\ UNCHANGED <<e, x, yi, rem, fst, seg>>

Mid ==
  /\ pc = "mid"
  /\ IF xi = Floor(seg[3])
     THEN /\ LET d == seg[4] - y
             IN cells' = Add(yi, xi, (Edge0 + seg[3] - Units * xi) * d, d)
          /\ pc' = "next"
          /\ UNCHANGED <<xi, y, yrem>>
     ELSE LET full == (Units * DY) \div QX
              m == (IF Design = "noyrem" THEN 0 ELSE yrem) + ((Units * DY) % QX)
              d == IF m >= QX THEN full + 1 ELSE full
          IN /\ cells' = Add(yi, xi, Units * d, d)
             /\ yrem' = IF m >= QX THEN m - QX ELSE m
             /\ y' = y + d
             /\ xi' = IF Right THEN xi + 1 ELSE xi - 1
             /\ pc' = "mid"
  /\ UNCHANGED <<e, x, yi, rem, fst, seg>>

NextRow ==
  /\ pc = "next"
  /\ IF yi = Last THEN pc' = "done" /\ UNCHANGED <<x, yi, fst>>
     ELSE pc' = "row" /\ x' = seg[3] /\ yi' = (IF Down THEN yi + 1 ELSE yi - 1) /\ fst' = FALSE
  /\ UNCHANGED <<e, rem, xi, y, yrem, seg, cells>>

Next == Row \/ First \/ Mid \/ NextRow

-----------------------------------------------------------------------------
Cell(r, c) == IF <<r, c>> \in DOMAIN cells THEN cells[<<r, c>>] ELSE <<0, 0>>
ColsOf(r) == {k[2] : k \in {k \in DOMAIN cells : k[1] = r}}
RECURSIVE CoverSum(_, _)
CoverSum(r, cs) == IF cs = {} THEN 0
                   ELSE LET c == CHOOSE c \in cs : TRUE IN Cell(r, c)[2] + CoverSum(r, cs \ {c})
CellArea(r, c) ==
  2 * Units * CoverSum(r, {k \in ColsOf(r) : k <= c}) - Cell(r, c)[1]

(* The incremental algorithm refines the declarative specification. *)
Refines ==
  pc = "done" =>
    \A r \in (-1)..Rows, c \in (-1)..Cols :
       CellArea(r, c) = Area(RowPieces(<<e>>, r, Units), c, Units)

(* The running x is the exact crossing rounded down. *)
CrossingExact == (pc = "row" /\ ~fst) =>
   x = CutX(e, IF Down THEN Units * yi ELSE Units * yi + Units)

(* The coarse areas stay near areas computed 8 times finer: at most one unit *)
(* of y and one of x per cut.                                               *)
Fine == [j \in 1..4 |-> 8 * e[j]]
Near ==
  pc = "done" =>
    \A r \in 0..(Rows - 1), c \in 0..(Cols - 1) :
       Abs(64 * Area(RowPieces(<<e>>, r, Units), c, Units)
           - Area(RowPieces(<<Fine>>, r, 8 * Units), c, 8 * Units)) <= 64 * 4 * Units
=============================================================================
