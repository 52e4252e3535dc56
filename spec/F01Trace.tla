------------------------------ MODULE F01Trace ------------------------------
(* F01: a used face answers as a new one.                                   *)
EXTENDS TraceBase
J(e) ==
  LET wrong == {i \in DOMAIN e.out.got : e.out.got[i] # e.out.fresh[i]}
  IN IF wrong = {} THEN ""
     ELSE LET i == CHOOSE i \in wrong : \A j \in wrong : i <= j
          IN "call " \o ToString(i) \o " " \o ToString(e.in.calls[i]) \o " gives " \o ToString(e.out.got[i])
             \o " but a new face gives " \o ToString(e.out.fresh[i])
Next == Consume(J)
=============================================================================
