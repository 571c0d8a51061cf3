---- MODULE TraceAv1Stream ----
EXTENDS Av1Stream, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ci, ei, ss
INSTANCE Conform
====
