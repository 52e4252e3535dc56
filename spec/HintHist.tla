------------------------------ MODULE HintHist ------------------------------
(* What a glyph buffer remembers between loads, and the histories of loads  *)
(* through one buffer.                                                      *)
(*                                                                          *)
(* key: the font and size whose set-up the buffer keeps (none: <<0, 0>>);   *)
(* env: the font and size whose programs' effects are in the hinter now;    *)
(* saved: those that a snapshot was taken of; dirty: a glyph's program may  *)
(* have changed the effects; start: what the last glyph program started     *)
(* from (<<0, 0>>: none ran), with the effects of earlier ones (after).     *)
(*                                                                          *)
(* Design = "code" is what is implemented; TLC refutes the others: the      *)
(* snapshot is not restored ("norestore"), the set-up is known by its font  *)
(* only ("font") or by its size only ("size"), a set-up that failed counts  *)
(* ("failed"), the snapshot is taken after the glyph's program ("late").    *)
EXTENDS BehBase, FiniteSets
CONSTANTS Fonts, Scales, Glyphs, Len0, Kind,
          Design,
          Broken        \* fonts and sizes whose programs fail
VARIABLES key, env, saved, dirty, start, after, stale, hist     \* stale: the snapshot is
vars == <<key, env, saved, dirty, start, after, stale, hist>>
None == <<0, 0>>
BrokenSet == {<<2, 2>>, <<3, 1>>, <<3, 2>>}
Init == key = None /\ env = None /\ saved = None /\ dirty = FALSE /\ start = None /\ after = FALSE /\ stale = FALSE /\ hist = << >>

Unhinted(x) == UNCHANGED <<key, env, saved, dirty, stale>> /\ start' = None /\ after' = FALSE
SetUp(x) ==
  /\ env' = x
  /\ IF x \in Broken
     THEN /\ key' = IF Design = "failed" THEN x ELSE None
          /\ start' = None /\ after' = FALSE /\ dirty' = TRUE /\ UNCHANGED <<saved, stale>>
     ELSE key' = x /\ saved' = x /\ start' = x /\ after' = FALSE /\ dirty' = TRUE /\ stale' = (Design = "late")
Again(x) ==      \* the snapshot is restored, and the glyph's program runs
  /\ IF Design = "norestore" THEN env' = env /\ start' = env /\ after' = dirty
     ELSE env' = saved /\ start' = saved /\ after' = stale
  /\ dirty' = TRUE
  /\ UNCHANGED <<key, saved, stale>>
Known(x) == CASE Design = "font" -> key[1] = x[1] [] Design = "size" -> key[2] = x[2] [] OTHER -> key = x
Load(x, h) == IF h = 0 THEN Unhinted(x) ELSE IF Known(x) THEN Again(x) ELSE SetUp(x)

\* A hinted load that runs a glyph's program runs it in its own font's and size's environment.
Fresh == [][start' # None => ~after' /\ start' = <<hist'[Len(hist')].f, hist'[Len(hist')].s>>]_vars
NoneBroken == key \notin Broken

Do(f, s, g, h) == Load(<<f, s>>, h) /\ hist' = Append(hist, [f |-> f, s |-> s, g |-> g, h |-> h])
Next == /\ Len(hist) < Len0
        /\ \E f \in Fonts, s \in Scales, g \in Glyphs, h \in 0..2 : Do(f, s, g, h)
\* For exploring every history: only what the last load was matters.
View == <<key, env, saved, dirty, start, after, stale, IF hist = << >> THEN 0 ELSE hist[Len(hist)], Len(hist)>>

(* Histories for the driver: mostly the same few fonts, sizes and glyphs. *)
Pick(S) == RandomElement(S)
Walk == /\ Len(hist) < Len0
        /\ LET last == IF hist = << >> THEN [f |-> 1, s |-> 1, g |-> 0, h |-> 2] ELSE hist[Len(hist)]
               r == Pick(1..10)
               f == IF r <= 6 THEN last.f ELSE Pick(Fonts)
               s == IF r <= 4 THEN last.s ELSE Pick(Scales)
           IN \E g \in {Pick(Glyphs)}, h \in {Pick({0, 1, 2, 2, 3}) % 3} : Do(f, s, g, IF h = 0 /\ Pick(1..2) = 1 THEN 2 ELSE h)
Emit == Len(hist) = Len0 => EmitBehaviour([seed |-> RandomElement(1..1000000), kind |-> Kind, hist |-> hist])
=============================================================================
