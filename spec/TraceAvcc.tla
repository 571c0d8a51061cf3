---- MODULE TraceAvcc ----
EXTENDS Avcc, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ci, ei, ss
INSTANCE Conform
====
