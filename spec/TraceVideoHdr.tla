---- MODULE TraceVideoHdr ----
EXTENDS VideoHdr, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ci, ei, ss
INSTANCE Conform
====
