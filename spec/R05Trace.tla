------------------------------ MODULE R05Trace ------------------------------
(* R05: compositing. The backing image before and after every batch.        *)
EXTENDS Paint, TraceBase

J(e) ==
  LET in == e.in
      B == in.big
      S == in.sub
      w == B[3] - B[1]
      nc == IF in.kind \in {"rgbaover", "rgbasrc"} THEN 4 ELSE 1
      n == Len(in.pix)
      before(b) == IF b = 1 THEN in.pix ELSE e.out.after[b - 1]
      \* byte j (1-based) of the backing image
      X(j) == B[1] + (((j - 1) \div nc) % w)
      Y(j) == B[2] + (((j - 1) \div nc) \div w)
      InSub(j) == S[1] <= X(j) /\ X(j) < S[3] /\ S[2] <= Y(j) /\ Y(j) < S[4]
      chan(j) == ((j - 1) % 4) + 1
      ok(b, j) ==
        LET bt == in.batches[b]
            hits == SelectSeq(bt.spans, LAMBDA s : Covers(s, X(j), Y(j)))
            old == before(b)[j]
            new == e.out.after[b][j]
            ma == hits[1][4]
        IN IF ~InSub(j) \/ Len(hits) = 0 THEN new = old
           ELSE CASE in.kind = "alphaover" -> OverOK(old, new, 65535, 65535, ma, 2)
                  [] in.kind = "alphasrc" -> SrcOK(new, 65535, ma)
                  [] in.kind = "rgbaover" -> OverOK(old, new, bt.color[chan(j)], bt.color[4], ma, 1)
                  [] in.kind = "rgbasrc" -> SrcOK(new, bt.color[chan(j)], ma)
      bad0 == {p \in (1..Len(in.batches)) \X (1..n) : ~ok(p[1], p[2])}
      \* a colour that exceeds its alpha
      Valid(px) == \A j \in 1..n : px[j] <= px[4 * ((j + 3) \div 4)]
      bad1 == {b \in 1..Len(in.batches) : nc = 4 /\ ~Valid(e.out.after[b])}
  IN IF nc = 4 /\ ~Valid(in.pix) THEN "generator: not premultiplied"
     ELSE IF bad0 = {} /\ bad1 # {} THEN "not premultiplied after batches " \o ToString(bad1)
     ELSE IF bad0 = {} THEN ""
     ELSE "batch, byte, old, new: " \o ToString({<<p[1], p[2], before(p[1])[p[2]], e.out.after[p[1]][p[2]]>> : p \in bad0})

Next == Consume(J)
=============================================================================
