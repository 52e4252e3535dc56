---------------------------- MODULE ContextModel ----------------------------
(* A drawing context's settings and its cache of glyph images: one place    *)
(* per glyph (modulo a number) and quarter of a pixel.  The place holds the *)
(* image as it was drawn first; any change of a setting that an image       *)
(* depends on empties all places.                                           *)
(*                                                                          *)
(* Design = "code" is what is implemented; TLC refutes the others: changing *)
(* the font, size, resolution or hinting keeps the images ("keep1" ..       *)
(* "keep4"), a place is taken without looking at whose it is ("anyone"), a  *)
(* glyph that cannot be loaded takes the place over ("fails").              *)
EXTENDS BehBase, FiniteSets
CONSTANTS Fonts, Sizes, Dpis, Hints,
          Glyphs, Places,        \* glyph numbers share Places places
          Fracs, PerCol,         \* sub-pixel positions, and how many share a column
          Fails,                 \* the glyphs that cannot be loaded
          Len0, Design
VARIABLES set, place, asked, shown, hist
vars == <<set, place, asked, shown, hist>>
FailSet == {<<2, 1>>}
Nothing == [set |-> << >>, g |-> -1, x |-> 0]

Init == /\ set = <<0, 48, 72, 0>>      \* font, size, resolution, hinting
        /\ place = [p \in (0..(Places - 1)) \X {x \div PerCol : x \in Fracs} |-> Nothing]
        /\ asked = {}                  \* <<glyph, position>> since the settings changed
        /\ shown = << >>               \* <<glyph, position, image>>
        /\ hist = << >>

Change(i, v) ==
  /\ set' = [set EXCEPT ![i] = v]
  /\ shown' = << >>
  /\ IF set[i] = v \/ <<Design, i>> \in {<<"keep1", 1>>, <<"keep2", 2>>, <<"keep3", 3>>, <<"keep4", 4>>} THEN UNCHANGED <<place, asked>>
     ELSE place' = [p \in DOMAIN place |-> Nothing] /\ asked' = {}
Draw(g, x) ==
  IF set[1] = 0 \/ (place[<<g % Places, x \div PerCol>>].g # g /\ <<set[1], g>> \in Fails) THEN /\ shown' = << >> /\ UNCHANGED <<set, asked>>
                                                   /\ IF Design = "fails" /\ set[1] # 0
                                                      THEN place' = [place EXCEPT ![<<g % Places, x \div PerCol>>].g = g]
                                                      ELSE UNCHANGED place
  ELSE LET p == <<g % Places, x \div PerCol>>
           new == [set |-> set, g |-> g, x |-> x]
           im == IF place[p].g = g \/ (Design = "anyone" /\ place[p].g # -1) THEN place[p] ELSE new
       IN /\ place' = [place EXCEPT ![p] = im]
          /\ asked' = asked \cup {<<g, x>>}
          /\ shown' = <<g, x, im>>
          /\ UNCHANGED set

\* What is shown was drawn with the settings of now, is that glyph, and was asked for.
Right == shown # << >> =>
  LET im == shown[3] IN /\ im.set = set /\ im.g = shown[1]
                        /\ im.x \div PerCol = shown[2] \div PerCol
                        /\ <<im.g, im.x>> \in asked
Next == /\ Len(hist) < Len0 /\ hist' = Append(hist, 0)
        /\ \/ \E v \in Fonts \cup {0} : Change(1, v)
           \/ \E v \in Sizes : Change(2, v)
           \/ \E v \in Dpis : Change(3, v)
           \/ \E v \in Hints : Change(4, v)
           \/ \E g \in Glyphs, x \in Fracs : Draw(g, x)
View == <<set, place, asked, shown>>

(* ------------------------------------------------- histories for the driver *)
Pick(S) == RandomElement(S)
C(op, a, s, x, y) == [o |-> op, a |-> a, s |-> s, x |-> x, y |-> y]
Chars == {65, 66, 67, 68, 69, 321, 322, 323, 324, 577}
XY == {0, 3, 15, 16, 20, 37, 40, 63}
RECURSIVE Str(_)
Str(n) == IF n = 0 THEN << >> ELSE Append(Str(n - 1), Pick(Chars))
Walk ==
  /\ Len(hist) < Len0
  /\ LET ds == {k \in DOMAIN hist : hist[k].o = "draw" /\ Len(hist[k].s) = 1}
         old == IF ds = {} THEN C("draw", 0, <<65>>, 0, 0) ELSE hist[Pick(ds)]
         r == Pick(1..24)
         c == old.s[1]
         near == {c, c, IF c >= 321 THEN c - 256 ELSE c + 256, Pick(Chars)}
     IN hist' = Append(hist,
          IF hist = << >> THEN C("font", Pick(Fonts), << >>, 0, 0)
          ELSE CASE r = 1 -> C("font", Pick(Fonts \cup {0}), << >>, 0, 0)
                 [] r = 2 -> C("font", Pick(Fonts), << >>, 0, 0)
                 [] r \in {3, 4} -> C("size", Pick(Sizes), << >>, Pick({0, 9}), 0)
                 [] r = 5 -> C("dpi", Pick(Dpis), << >>, Pick({0, 40}), 0)
                 [] r \in {6, 7} -> C("hint", Pick(Hints), << >>, 0, 0)
                 [] r = 8 -> C("src", Pick(0..255), << >>, 0, 0)
                 [] r \in {9, 10} -> C("draw", Pick(0..1), Str(Pick(0..4)), 64 * Pick(-2..2) + Pick(XY), Pick(XY))
                 [] r \in 11..16 -> C("draw", 0, <<Pick(near)>>, old.x + (64 * Pick({0, 1})), old.y)
                 [] r \in 17..20 -> C("draw", 0, <<c>>, 64 * Pick(-2..2) + Pick(XY), Pick({old.y, Pick(XY)}))
                 [] OTHER -> C("draw", 0, <<Pick(Chars)>>, 64 * Pick(-2..2) + Pick(XY), Pick(XY)))
  /\ UNCHANGED <<set, place, asked, shown>>
Emit == Len(hist) = Len0 => EmitBehaviour([seed |-> Pick(1..1000000), calls |-> hist])
=============================================================================
