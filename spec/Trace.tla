------------------------------- MODULE Trace -------------------------------
(* Reading of the logs recorded from the real code, and reporting.          *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
\* a clause that must hold, by name: the set of the failed names
Must(name, ok) == IF ok THEN {} ELSE {name}
Start == IF "START" \in DOMAIN IOEnv THEN atoi(IOEnv.START) ELSE 1
=============================================================================
