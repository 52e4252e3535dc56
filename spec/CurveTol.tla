------------------------------ MODULE CurveTol ------------------------------
(* How far a rasterization of curved paths may be from the curves, which    *)
(* are flattened much finer here than the code does.                        *)
EXTENDS Raster, FiniteSets

K == 8                       \* the reference's precision: 64 * K units per pixel
ScaleOps(ops) == TLCEval([i \in 1..Len(ops) |-> [o |-> ops[i].o, p |-> [j \in 1..Len(ops[i].p) |-> K * ops[i].p[j]]]])
FineEdges(ops) == EdgesFrom(ScaleOps(ops), 1, <<0, 0>>, 1, 2)
U8 == 64 * K

(* The tolerance of 5/16 pixel, measured along an axis where the slope is at most 1/2, plus slack. *)
SumTol == 1500               \* of 4096

FullArea(fine, r, c, nz) == Alpha12(DivF(Area(RowPieces(fine, r, U8), c, U8), K * K), nz)

(* Does edge e (in fine units) come within one pixel of pixel (r, c)? *)
NearEdge(e, r, c) ==
  /\ Min2(e[1], e[3]) <= U8 * (c + 2) /\ Max2(e[1], e[3]) >= U8 * (c - 1)
  /\ Min2(e[2], e[4]) <= U8 * (r + 2) /\ Max2(e[2], e[4]) >= U8 * (r - 1)

FarBad(fine, d, nz) ==
  {p \in d : /\ \A i \in 1..Len(fine) : ~NearEdge(fine[i], p[1], p[2])
             /\ Abs(p[3] \div 16 - FullArea(fine, p[1], p[2], nz)) > 1}

RECURSIVE ColSum(_, _, _)
ColSum(spans, c, i) ==
  IF i > Len(spans) THEN 0
  ELSE (IF spans[i][2] <= c /\ c < spans[i][3] THEN spans[i][4] \div 16 ELSE 0) + ColSum(spans, c, i + 1)
RECURSIVE RowSum(_, _, _)
RowSum(spans, r, i) ==
  IF i > Len(spans) THEN 0
  ELSE (IF spans[i][1] = r THEN (spans[i][4] \div 16) * (spans[i][3] - spans[i][2]) ELSE 0) + RowSum(spans, r, i + 1)
RECURSIVE FineCol(_, _, _, _)
FineCol(fine, c, h, nz) == IF h = 0 THEN 0 ELSE FullArea(fine, h - 1, c, nz) + FineCol(fine, c, h - 1, nz)
RECURSIVE FineRow(_, _, _, _)
FineRow(fine, r, w, nz) == IF w = 0 THEN 0 ELSE FullArea(fine, r, w - 1, nz) + FineRow(fine, r, w - 1, nz)

(* Slopes are at most 1/2 in column c (row r). *)
FlatCol(fine, c) == \A i \in 1..Len(fine) :
  LET e == fine[i] IN
  (Min2(e[1], e[3]) < U8 * (c + 1) /\ Max2(e[1], e[3]) > U8 * c) => 2 * Abs(e[4] - e[2]) <= Abs(e[3] - e[1])
FlatRow(fine, r) == \A i \in 1..Len(fine) :
  LET e == fine[i] IN
  (Min2(e[2], e[4]) < U8 * (r + 1) /\ Max2(e[2], e[4]) > U8 * r) => 2 * Abs(e[3] - e[1]) <= Abs(e[4] - e[2])

(* How far a pixel's alpha may be from the curve's when no point of the     *)
(* outline is more than 5/16 pixel off: only points within that distance    *)
(* (plus half a sample's diagonal) may be on the wrong side.  Points are    *)
(* sampled 8 by 8; a sample is inside if its own alpha is at least half.    *)
Reach == 205                  \* (5/16 + 0.09) * 512
NearSeg(px, py, e) ==
  LET dx == e[3] - e[1]  dy == e[4] - e[2]
      l2 == dx * dx + dy * dy
      t == Clamp((px - e[1]) * dx + (py - e[2]) * dy, 0, l2)
      fx == IF l2 = 0 THEN e[1] ELSE e[1] + MulDivF(t, dx, l2)
      fy == IF l2 = 0 THEN e[2] ELSE e[2] + MulDivF(t, dy, l2)
  IN (px - fx) * (px - fx) + (py - fy) * (py - fy) <= Reach * Reach
TubeBad(fine, p, nz) ==
  LET r == p[1]  c == p[2]
      near == SelectSeq(fine, LAMBDA e : NearEdge(e, r, c))
      short == \A i \in 1..Len(near) : Abs(near[i][3] - near[i][1]) < 20000 /\ Abs(near[i][4] - near[i][2]) < 20000
      inside == {q \in (0..7) \X (0..7) :
                   Alpha12(Area(RowPieces(fine, 8 * r + q[1], 64), 8 * c + q[2], 64), nz) >= 2048}
      close == {q \in (0..7) \X (0..7) :
                   \E i \in 1..Len(near) : NearSeg(64 * (8 * c + q[2]) + 32, 64 * (8 * r + q[1]) + 32, near[i])}
      ref == FullArea(fine, r, c, nz)
      got == p[3] \div 16
  IN /\ short
     /\ Abs(64 * Cardinality(inside) - ref) < 300       \* the outline does not cross itself here
     /\ \/ got - ref > 64 * Cardinality(close \ inside) + 64
        \/ ref - got > 64 * Cardinality(close \cap inside) + 64
=============================================================================
