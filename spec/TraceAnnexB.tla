---- MODULE TraceAnnexB ----
EXTENDS AnnexB, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ci, ei, ss
INSTANCE Conform
====
