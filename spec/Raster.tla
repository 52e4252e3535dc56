------------------------------- MODULE Raster -------------------------------
(* What a rasterization means.  The specification is declarative: a path is *)
(* a sequence of straight edges in 26.6 co-ordinates (y downwards); an edge *)
(* contributes to every pixel (r, c) a signed area computed in closed form; *)
(* the pixel's alpha is a function of the total area and the winding rule.  *)
(* Nothing here mirrors the cell lists or the incremental error terms of    *)
(* the implementation.                                                      *)
EXTENDS Fixed, TLC

(* An edge is <<x0, y0, x1, y1>>.  U is the number of units per pixel: 64   *)
(* is the precision of the code, larger values give the reference that the  *)
(* tolerance of the property is measured against.                           *)

(* The x co-ordinate where edge e crosses the horizontal line y = Y, rounded down. *)
CutX(e, Y) == e[1] + MulDivF(Abs(Y - e[2]), e[3] - e[1], Abs(e[4] - e[2]))

(* The part of an edge inside pixel row r: <<xa, ya, xb, yb>> with ya, yb   *)
(* relative to the row's top. The cuts are rounded down to the unit.        *)
Piece(e, r, U) ==
  LET top == U * r
      ya == Clamp(e[2], top, top + U)
      yb == Clamp(e[4], top, top + U)
      xa == IF ya = e[2] THEN e[1] ELSE CutX(e, ya)
      xb == IF yb = e[4] THEN e[3] ELSE CutX(e, yb)
  IN <<xa, ya - top, xb, yb - top>>

InRow(e, r, U) == /\ e[2] # e[4]
                  /\ Min2(e[2], e[4]) < U * r + U
                  /\ Max2(e[2], e[4]) > U * r

(* The pieces of all edges in row r. *)
RowPieces(edges, r, U) ==
  LET sel == SelectSeq(edges, LAMBDA e : InRow(e, r, U))
  IN [i \in 1..Len(sel) |-> Piece(sel[i], r, U)]

(* y (relative to the row) where piece p crosses the vertical line x = X,   *)
(* rounded down; the nearer end of the piece if it does not reach that line.*)
CutY(p, X) ==
  IF p[1] < p[3] THEN
     IF X <= p[1] THEN p[2] ELSE IF X >= p[3] THEN p[4]
     ELSE p[2] + (((X - p[1]) * (p[4] - p[2])) \div (p[3] - p[1]))
  ELSE
     IF X >= p[1] THEN p[2] ELSE IF X <= p[3] THEN p[4]
     ELSE p[2] + (((p[1] - X) * (p[4] - p[2])) \div (p[1] - p[3]))

(* Twice the signed area that piece p puts into column c of its row: all of *)
(* the pixel to the right of the piece counts.                              *)
PieceArea(p, c, U) ==
  LET L == U * c
      R == L + U
      dy == p[4] - p[2]
  IN IF p[1] >= R /\ p[3] >= R THEN 0                \* wholly to the right
     ELSE IF p[1] < L /\ p[3] < L THEN 2 * U * dy    \* wholly to the left
     ELSE IF p[1] = p[3] THEN (2 * U - 2 * (p[1] - L)) * dy
     ELSE LET yL == CutY(p, L)
              yR == CutY(p, R)
              left == IF p[1] < p[3] THEN yL - p[2] ELSE p[4] - yL
              in == IF p[1] < p[3] THEN yR - yL ELSE yL - yR
              xf == Clamp(p[1] - L, 0, U) + Clamp(p[3] - L, 0, U)
          IN 2 * U * left + (2 * U - xf) * in

RECURSIVE AreaFrom(_, _, _, _)
AreaFrom(ps, c, U, i) ==
  IF i > Len(ps) THEN 0 ELSE PieceArea(ps[i], c, U) + AreaFrom(ps, c, U, i + 1)

Area(ps, c, U) == AreaFrom(ps, c, U, 1)

(* Alpha, in 1/4096ths, of a pixel with doubled area ar (8192 is full). *)
Alpha12(ar, nz) ==
  LET a == Abs((ar + 1) \div 2)
      m == a % 8192
  IN IF nz THEN Min2(a, 4095)
     ELSE IF m > 4096 THEN 8192 - m ELSE IF m = 4096 THEN 4095 ELSE m

(* 16-bit alpha, with 4095 mapping to 65535. *)
Alpha16(a12) == a12 * 16 + a12 \div 256

AlphaOf(ar, nz) == Alpha16(Alpha12(ar, nz))

(* The alphas of row r: a function of the column. *)
RowAlphas(edges, r, w, nz) ==
  LET ps == RowPieces(edges, r, 64)
  IN [c \in 0..(w - 1) |-> AlphaOf(Area(ps, c, 64), nz)]

-----------------------------------------------------------------------------
(* From path operations to edges. Operations are records [o, p] where o is  *)
(* "S", "L", "Q" or "C" and p the co-ordinates of the points.               *)

(* Number of halvings of a curve, by its deviation from a straight line and *)
(* the size class of the rasterizer.                                        *)
SizeClass(w, h) == IF w > 120 \/ h > 120 THEN 4 ELSE IF w > 24 \/ h > 24 THEN 2 ELSE 1

RECURSIVE Split2(_)
Split2(dev) == IF dev <= 0 THEN 0 ELSE 1 + Split2(dev \div 4)
H(a, b) == DivT(a + b, 2)

(* Polyline for a quadratic from a with control point b to c: the points    *)
(* after a.  Halving is done in integers, rounding towards zero.            *)
RECURSIVE Quad(_, _, _, _)
Quad(a, b, c, n) ==
  IF n = 0
  THEN << <<DivT(a[1] + 2 * b[1] + c[1], 4), DivT(a[2] + 2 * b[2] + c[2], 4)>>, c >>
  ELSE LET ab == <<H(a[1], b[1]), H(a[2], b[2])>>
           bc == <<H(b[1], c[1]), H(b[2], c[2])>>
           m == <<H(ab[1], bc[1]), H(ab[2], bc[2])>>
       IN Quad(a, ab, m, n - 1) \o Quad(m, bc, c, n - 1)

RECURSIVE Cubic(_, _, _, _, _)
Cubic(a, b, c, d, n) ==
  IF n = 0
  THEN << <<DivT(a[1] + 3 * (b[1] + c[1]) + d[1], 8), DivT(a[2] + 3 * (b[2] + c[2]) + d[2], 8)>>, d >>
  ELSE LET ab == <<H(a[1], b[1]), H(a[2], b[2])>>
           bc == <<H(b[1], c[1]), H(b[2], c[2])>>
           cd == <<H(c[1], d[1]), H(c[2], d[2])>>
           abc == <<H(ab[1], bc[1]), H(ab[2], bc[2])>>
           bcd == <<H(bc[1], cd[1]), H(bc[2], cd[2])>>
           m == <<H(abc[1], bcd[1]), H(abc[2], bcd[2])>>
       IN Cubic(a, ab, abc, m, n - 1) \o Cubic(m, bcd, cd, d, n - 1)

NSplit2(a, b, c, k) ==
  Split2(Max2(Abs(a[1] - 2 * b[1] + c[1]), Abs(a[2] - 2 * b[2] + c[2])) \div (32 * k))
NSplit3(a, b, c, d, k) ==
  Split2(Max2(Max2(Abs(a[1] - 2 * b[1] + c[1]), Abs(a[2] - 2 * b[2] + c[2])),
              Max2(Abs(b[1] - 2 * c[1] + d[1]), Abs(b[2] - 2 * c[2] + d[2]))) \div (16 * k))

(* The points that an operation visits from pen position a. k: size class,  *)
(* x: additional halvings (0: the code's own flattening).                   *)
Visit(a, op, k, x) ==
  LET p == op.p IN
  CASE op.o = "S" -> << >>
    [] op.o = "L" -> << <<p[1], p[2]>> >>
    [] op.o = "Q" -> LET b == <<p[1], p[2]>>  c == <<p[3], p[4]>>
                     IN Quad(a, b, c, NSplit2(a, b, c, k) + x)
    [] op.o = "C" -> LET b == <<p[1], p[2]>>  c == <<p[3], p[4]>>  d == <<p[5], p[6]>>
                     IN Cubic(a, b, c, d, NSplit3(a, b, c, d, k) + x)

PenAfter(a, op) == <<op.p[Len(op.p) - 1], op.p[Len(op.p)]>>

RECURSIVE EdgesFrom(_, _, _, _, _)
EdgesFrom(ops, i, pen, k, x) ==
  IF i > Len(ops) THEN << >>
  ELSE LET v == Visit(pen, ops[i], k, x)
           es == TLCEval([j \in 1..Len(v) |->
                    IF j = 1 THEN <<pen[1], pen[2], v[1][1], v[1][2]>>
                    ELSE <<v[j-1][1], v[j-1][2], v[j][1], v[j][2]>>])
       IN es \o EdgesFrom(ops, i + 1, PenAfter(pen, ops[i]), k, x)

(* The edges of a sequence of path operations on a cleared rasterizer. *)
Edges(ops, k) == EdgesFrom(ops, 1, <<0, 0>>, k, 0)

-----------------------------------------------------------------------------
(* What a Painter receives: [spans |-> Seq(<<y, x0, x1, alpha>>),           *)
(* batches |-> Seq(Nat), dones |-> Seq(0..1)].                              *)

Before(s, t) == s[1] < t[1] \/ (s[1] = t[1] /\ s[3] <= t[2])

RECURSIVE SumSeq(_, _)
SumSeq(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + SumSeq(s, i + 1)

(* The structural promise; w, h: bounds, dx, dy: paint offset. "" or what is wrong. *)
Structure(out, w, h, dx, dy) ==
  LET s == out.spans
      n == Len(s)
      d == out.dones
  IN CASE \E i \in 1..n : s[i][2] >= s[i][3] -> "span of no width"
       [] \E i \in 1..n : s[i][4] <= 0 \/ s[i][4] > 65535 -> "span alpha out of range"
       [] \E i \in 1..n : s[i][2] < dx \/ s[i][3] > dx + w -> "span outside the width"
       [] \E i \in 1..n : s[i][1] < dy \/ s[i][1] >= dy + h -> "span outside the height"
       [] \E i \in 1..(n - 1) : ~Before(s[i], s[i + 1]) -> "spans out of order or overlapping"
       [] Len(d) = 0 -> "no batch"
       [] \E i \in 1..Len(d) : d[i] # (IF i = Len(d) THEN 1 ELSE 0) -> "final mark not on exactly the last batch"
       [] SumSeq(out.batches, 1) # n -> "batches do not add up"
       [] OTHER -> ""

(* Alpha of pixel (x, y) in a span sequence rs restricted to the row. *)
RECURSIVE AlphaIn(_, _, _)
AlphaIn(rs, x, i) ==
  IF i > Len(rs) THEN 0
  ELSE IF rs[i][2] <= x /\ x < rs[i][3] THEN rs[i][4] ELSE AlphaIn(rs, x, i + 1)

RowOf(spans, y) == SelectSeq(spans, LAMBDA s : s[1] = y)

(* Pixels <<r, c, alpha>> where out differs from the specification's exact value. *)
Diff(edges, out, w, h, dx, dy, nz) ==
  UNION { LET rs == RowOf(out.spans, r + dy)
              ps == RowPieces(edges, r, 64)
          IN { <<r, c, AlphaIn(rs, c + dx, 1)>> : c \in {c \in 0..(w - 1) :
                 AlphaIn(rs, c + dx, 1) # AlphaOf(Area(ps, c, 64), nz)} }
          : r \in 0..(h - 1) }

-----------------------------------------------------------------------------
(* The property's tolerance for paths of straight lines. *)

ScaleEdges(edges, k) == TLCEval([i \in 1..Len(edges) |-> [j \in 1..4 |-> k * edges[i][j]]])

(* Does piece p of a row touch column c (with a margin of one unit)? *)
Touches(p, c, U) == /\ Min2(p[1], p[3]) <= U * c + U + 1
                    /\ Max2(p[1], p[3]) >= U * c - 1

(* Are all cuts of edge e that matter to pixel (r, c) exact? *)
DividesX(e, Y) == MulDivMod(Abs(Y - e[2]), Abs(e[3] - e[1]), Abs(e[4] - e[2]))[2] = 0
DividesY(e, X) == \/ e[1] = e[3]
                  \/ (Min2(e[1], e[3]) >= X \/ Max2(e[1], e[3]) <= X)
                  \/ MulDivMod(Abs(X - e[1]), Abs(e[4] - e[2]), Abs(e[3] - e[1]))[2] = 0
ExactEdge(e, r, c) ==
  /\ e[2] < 64 * r /\ 64 * r < e[4] => DividesX(e, 64 * r)
  /\ e[4] < 64 * r /\ 64 * r < e[2] => DividesX(e, 64 * r)
  /\ e[2] < 64 * r + 64 /\ 64 * r + 64 < e[4] => DividesX(e, 64 * r + 64)
  /\ e[4] < 64 * r + 64 /\ 64 * r + 64 < e[2] => DividesX(e, 64 * r + 64)
  /\ DividesY(e, 64 * c) /\ DividesY(e, 64 * c + 64)

ExactPixel(edges, r, c) ==
  \A i \in 1..Len(edges) : InRow(edges[i], r, 64) => ExactEdge(edges[i], r, c)

(* The reference alpha (0..4096) of pixel (r, c), computed 16 times finer. *)
FineAlpha12(fine, r, c, nz) ==
  Alpha12(DivF(Area(RowPieces(fine, r, 1024), c, 1024), 256), nz)

(* Deviations d (as from Diff) that the property does not allow: pixels     *)
(* that must be exact, or are off by more than 1/16 per edge inside them.   *)
BadPixels(edges, d, nz) ==
  LET fine == ScaleEdges(edges, 16)
  IN { p \in d :
        \/ ExactPixel(edges, p[1], p[2])
        \/ LET ps == RowPieces(edges, p[1], 64)
               n == Len(SelectSeq(ps, LAMBDA q : Touches(q, p[2], 64)))
           IN Abs(p[3] \div 16 - FineAlpha12(fine, p[1], p[2], nz)) > 256 * n }
=============================================================================
