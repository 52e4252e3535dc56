------------------------------ MODULE R04Trace ------------------------------
(* R04: curved segments are rasterized as the curves they describe.         *)
(* An execution that equals the specified flattening is accepted at once    *)
(* (CurveModel checks that this flattening is within tolerance).  Any other *)
(* execution is measured against the curve itself, flattened much finer.    *)
EXTENDS CurveTol, TraceBase

J(e) ==
  LET in == e.in
      es == Edges(in.ops, SizeClass(in.w, in.h))
      d == Diff(es, e.out, in.w, in.h, in.dx, in.dy, in.nz)
  IN IF d = {} THEN ""
     ELSE LET fine == FineEdges(in.ops)
              far == FarBad(fine, d, in.nz)
          IN IF far # {} THEN "pixels away from every curve are wrong: " \o ToString(far)
             ELSE IF in.kind = "even" /\ \E p \in d :
                     Abs(p[3] \div 16 - AlphaOf(Area(RowPieces(es, p[1], 64), p[2], 64), in.nz) \div 16) > 256
                  THEN "evenly spaced control points differ from the line: " \o ToString(d)
             ELSE IF in.kind = "graphx" /\ \E c \in {p[2] : p \in d} : FlatCol(fine, c) /\
                     Abs(ColSum(e.out.spans, c, 1) - FineCol(fine, c, in.h, in.nz)) > SumTol
                  THEN "curve is off by more than 5/16 pixel"
             ELSE IF in.kind = "graphy" /\ \E r \in {p[1] : p \in d} : FlatRow(fine, r) /\
                     Abs(RowSum(e.out.spans, r, 1) - FineRow(fine, r, in.w, in.nz)) > SumTol
                  THEN "curve is off by more than 5/16 pixel"
             ELSE IF \E p \in d : Abs(p[3] \div 16 - FullArea(fine, p[1], p[2], in.nz)) > 1300 /\ TubeBad(fine, p, in.nz)
                  THEN "the outline is off by more than 5/16 pixel"
             ELSE ""
Next == Consume(J)
=============================================================================
