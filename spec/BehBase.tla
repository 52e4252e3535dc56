------------------------------ MODULE BehBase ------------------------------
(* Writing a behaviour found by TLC's simulator to the file named by the    *)
(* environment variable BEH_OUT, one JSON value per line.                   *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
EmitBehaviour(v) ==
  Serialize(ToJson(v) \o "\n", IOEnv.BEH_OUT,
            [format |-> "TXT", charset |-> "UTF-8",
             openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
