----------------------------- MODULE TraceBase -----------------------------
(* A recorded trace of the implementation: one JSON object per line.         *)
EXTENDS Json, IOUtils
Tr == ndJsonDeserialize(IOEnv.TRACE)
=============================================================================
