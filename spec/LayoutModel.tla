---------------------------- MODULE LayoutModel -----------------------------
(* Design model for C02: laying the glyphs of a string out one after        *)
(* another, by kerning of adjacent pairs and advance widths, some glyphs    *)
(* being missing (.notdef) and one impossible to load.  Every string over a *)
(* small alphabet; widths and kerning tell all orders and pairs apart.      *)
(* Design = "code" is what is implemented; TLC refutes the others.          *)
(* Emit (with Longest, Seeds) gives the driver all strings to draw.         *)
EXTENDS BehBase
CONSTANTS Design, Longest, Seeds
VARIABLES text, hinted, i, x, prev, has, pens, result, seed

Chars == 0..3                 \* glyph 0 is .notdef; 3 cannot be loaded
Width(g) == CASE g = 0 -> 640 [] g = 1 -> 1000 [] g = 2 -> 0 [] OTHER -> 333
Kern(a, b) == CASE a = 0 /\ b = 0 -> 7 [] a = 0 -> -90 [] a = 1 /\ b = 1 -> -31 [] a = 1 /\ b = 2 -> -33 [] a = 2 /\ b = 1 -> 95 [] OTHER -> 0
Round(k) == ((k + 32) \div 64) * 64

Strings(n) == UNION {[1..k -> Chars] : k \in 0..n}

(* The law. *)
Pair(t, k) == IF k = 1 THEN 0 ELSE IF hinted THEN Round(Kern(t[k - 1], t[k])) ELSE Kern(t[k - 1], t[k])
RECURSIVE Pen(_, _)
Pen(t, k) == IF k = 1 THEN 0 ELSE Pen(t, k - 1) + Width(t[k - 1]) + Pair(t, k)
Fails(t) == \E k \in DOMAIN t : t[k] = 3
Right == IF Fails(text) THEN result = "error" /\ x = 0
         ELSE result = "ok" /\ x = (IF text = << >> THEN 0 ELSE Pen(text, Len(text)) + Width(text[Len(text)])) /\ pens = [k \in DOMAIN text |-> Pen(text, k)]

Init == /\ text \in Strings(Longest) /\ hinted \in BOOLEAN
        /\ seed \in Seeds
        /\ i = 1 /\ x = 0 /\ prev = 0 /\ has = FALSE /\ pens = << >> /\ result = "run"
Step ==
  /\ result = "run" /\ UNCHANGED <<text, hinted, seed>>
  /\ IF i > Len(text) THEN result' = "ok" /\ UNCHANGED <<i, x, prev, has, pens>>
     ELSE LET g == text[i]
              k0 == Kern(prev, g)
              k1 == IF hinted /\ Design # "never" THEN (IF Design = "trunc" THEN (k0 \div 64) * 64 ELSE Round(k0)) ELSE k0
              k == CASE Design = "first" -> k1
                     [] Design = "zero" -> IF prev # 0 THEN k1 ELSE 0
                     [] OTHER -> IF has THEN k1 ELSE 0
              pen == x + k
          IN IF g = 3 THEN result' = "error" /\ x' = (IF Design = "partial" THEN x ELSE 0) /\ UNCHANGED <<i, prev, has, pens>>
             ELSE /\ pens' = Append(pens, IF Design = "late" THEN x ELSE pen)
                  /\ x' = pen + Width(g)
                  /\ prev' = (IF Design = "blank" /\ Width(g) = 0 THEN prev ELSE g)
                  /\ has' = TRUE /\ i' = i + 1 /\ UNCHANGED result
Next == Step \/ (result # "run" /\ UNCHANGED <<text, hinted, seed, i, x, prev, has, pens, result>>)
Laid == result # "run" => Right

(* For the driver: all strings that go on from text, each drawn in turn. *)
Alphabet == <<65, 66, 67, -1, 9999>>
RECURSIVE All(_)
All(n) == IF n = 0 THEN << << >> >>
          ELSE LET a == All(n - 1)
                   m == Len(a)
               IN [k \in 1..(5 * m) |-> <<Alphabet[((k - 1) \div m) + 1]>> \o a[((k - 1) % m) + 1]]
Tail4 == (All(0) \o All(1)) \o (All(2) \o All(3))
Emit == (i = 1 /\ result = "run" /\ Len(text) = 1) =>
  EmitBehaviour([seed |-> seed, files |-> << >>, steps |->
    [k \in DOMAIN Tail4 |-> [f |-> 1, o |-> 40 + (4 * (seed % 5)), d |-> 72, h |-> IF hinted THEN 1 + (seed % 2) ELSE 0,
                             s |-> <<Alphabet[text[1] + 1]>> \o Tail4[k], x |-> 640 + (16 * (k % 5)), y |-> 128 * (k % 7),
                             v |-> IF k <= 6 THEN 0 ELSE 1]]])
=============================================================================
