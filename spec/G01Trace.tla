------------------------------ MODULE G01Trace ------------------------------
(* G01, G03, H01, H02: loaded glyphs are the ones that the specification    *)
(* finds in the bytes of the file.                                          *)
EXTENDS GlyphCheck, TraceBase
J(e) == JudgeFile(e.in.file, e.in.q, e.out.ok, e.out.ans)
Next == Consume(J)
=============================================================================
