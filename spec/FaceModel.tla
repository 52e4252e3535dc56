------------------------------ MODULE FaceModel ------------------------------
(* A face's caches: one place per character for its glyph, and one place    *)
(* per glyph and sub-pixel position for its image, which is drawn into that *)
(* place's part of one shared image.  A glyph may fit that part, be too big *)
(* for it (then it has an image of its own and the place stays as it is) or *)
(* not be loadable.                                                         *)
(*                                                                          *)
(* Design = "code" is the design that is implemented; the others are ones   *)
(* that TLC refutes: a place's claim forgets the vertical position ("noy"), *)
(* a big glyph ("big") or one that cannot be loaded ("fails") claims the    *)
(* place all the same, a character is told by its low bits ("low"), the     *)
(* place is worked out without the horizontal position and the claim is     *)
(* not looked at when the place is in use by the same glyph ("glyph").      *)
EXTENDS BehBase, FiniteSets
CONSTANTS Chars,         \* characters asked for
          Entries,       \* sets of possible numbers of places and sub-pixel positions
          Subs,
          NGlyphs, IndexPlaces,
          Len0, Design
VARIABLES o,             \* the face's options [e, sx, sy]
          class,         \* of each glyph
          chars,         \* place -> character whose glyph is in it (-1: none)
          entry,         \* place -> <<glyph, x, y>> that it claims to hold
          part,          \* place -> the image in its part
          last,          \* the last glyph request: <<asked for, delivered>>
          hist
vars == <<o, class, chars, entry, part, last, hist>>
None == <<-1, 0, 0>>
NoCall == <<None, None>>

\* The font's character map.
GlyphIn(c) == IF c >= 65 /\ c < 65 + NGlyphs THEN c - 65
              ELSE IF c >= 321 /\ c < 321 + NGlyphs THEN (c - 320) % NGlyphs ELSE 0
CharPlace(c) == c % IndexPlaces
Same(c, d) == IF Design = "low" THEN d # -1 /\ c % 256 = d % 256 ELSE c = d
Holds(e, k) == CASE Design = "noy" -> e[1] = k[1] /\ e[2] = k[2]
                 [] Design = "glyph" -> e[1] = k[1]
                 [] OTHER -> e = k
Place(k) == ((k[1] * o.sx + k[2]) * o.sy + k[3]) % o.e

Init == /\ o \in [e : Entries, sx : Subs, sy : Subs]
        /\ class \in [0..(NGlyphs - 1) -> {"fits", "big", "fails"}]
        /\ chars = [p \in 0..(IndexPlaces - 1) |-> -1]
        /\ entry = [p \in 0..(o.e - 1) |-> None]
        /\ part = [p \in 0..(o.e - 1) |-> None]
        /\ last = NoCall /\ hist = << >>

\* Looking a character up leaves it in its place (all calls but metrics do).
LookUp(c) == IF Same(c, chars[CharPlace(c)]) THEN UNCHANGED chars
             ELSE chars' = [chars EXCEPT ![CharPlace(c)] = c]
Found(c) == IF Same(c, chars[CharPlace(c)]) THEN GlyphIn(chars[CharPlace(c)]) ELSE GlyphIn(c)

Request(c, x, y) ==
  LET g == Found(c)
      k == <<g, x, y>>
      want == <<GlyphIn(c), x, y>>
      p == Place(k)
  IN /\ LookUp(c)
     /\ IF Holds(entry[p], k) THEN last' = <<want, part[p]>> /\ UNCHANGED <<entry, part>>
        ELSE IF class[g] = "fails" THEN last' = NoCall /\ UNCHANGED part /\ (IF Design = "fails" THEN entry' = [entry EXCEPT ![p] = k] ELSE UNCHANGED entry)
        ELSE IF class[g] = "big" THEN last' = <<want, k>> /\ UNCHANGED part /\ (IF Design = "big" THEN entry' = [entry EXCEPT ![p] = k] ELSE UNCHANGED entry)
        ELSE /\ entry' = [entry EXCEPT ![p] = k]
             /\ part' = [part EXCEPT ![p] = k]
             /\ last' = <<want, k>>
Other(c) == LookUp(c) /\ last' = NoCall /\ UNCHANGED <<entry, part>>
Call(op, c, d, x, y) == [o |-> op, r |-> c, r2 |-> d, x |-> x, y |-> y]

\* What is delivered is what was asked for; what a place claims is what is there.
Right == last[1] = last[2]
Honest == \A p \in DOMAIN entry : entry[p] # None => entry[p] = part[p] /\ p = Place(entry[p])
ByGlyph == \A p \in DOMAIN chars : chars[p] # -1 => CharPlace(chars[p]) = p

Next == /\ Len(hist) < Len0
        /\ UNCHANGED <<o, class>>
        /\ hist' = Append(hist, 0)
        /\ \E c \in Chars :
             \/ Other(c)
             \/ \E x \in 0..(o.sx - 1), y \in 0..(o.sy - 1) : Request(c, x, y)
View == <<o, class, chars, entry, part, last>>

(* ------------------------------------------------- histories for the driver *)
Pick(S) == RandomElement(S)
Frac == {0, 1, 7, 8, 15, 16, 23, 24, 31, 32, 40, 47, 48, 56, 63}
Names == {"glyph", "bounds", "adv", "kern", "metrics"}
InitWalk == /\ o = << >>
            /\ class = << >> /\ chars = << >> /\ entry = << >> /\ part = << >>
            /\ last = NoCall /\ hist = << >>
(* Mostly what was asked for a little earlier, what shares a place with it,  *)
(* or the same character elsewhere. A character whose low bits are those of   *)
(* another must not be taken for it.                                         *)
Walk == /\ Len(hist) < Len0
        /\ LET n == Len(hist)
               old == IF n = 0 THEN Call("glyph", 65, 66, 0, 0) ELSE hist[Pick({n, n, Pick(1..n)})]
               r == Pick(1..10)
               c == IF r <= 4 THEN old.r
                    ELSE IF r <= 6 THEN (old.r % 256) + Pick(IF Pick(1..2) = 1 THEN {0, 256} ELSE {2^k : k \in 9..20})
                    ELSE Pick(Chars)
               x == IF Pick(1..3) = 1 THEN 64 * Pick(-2..2) + Pick(Frac) ELSE old.x + 64 * Pick({0, 0, 1})
               y == IF Pick(1..3) = 1 THEN 64 * Pick(-2..2) + Pick(Frac) ELSE old.y
               op == IF Pick(1..10) <= 7 THEN "glyph" ELSE Pick(Names)
           IN hist' = Append(hist, Call(op, c, Pick({old.r, Pick(Chars)}), x, y))
        /\ o' = IF hist = << >> THEN [e |-> Pick(Entries), sx |-> Pick(Subs), sy |-> Pick(Subs)] ELSE o
        /\ UNCHANGED <<class, chars, entry, part, last>>
Emit == Len(hist) = Len0 =>
  EmitBehaviour([seed |-> Pick(1..1000000),
                 o |-> [nil |-> FALSE, size |-> Pick(20..80), dpi |-> Pick({72, 72, 96, 40}), h |-> Pick(0..2),
                        e |-> o.e, sx |-> o.sx, sy |-> o.sy],
                 calls |-> hist])
=============================================================================
