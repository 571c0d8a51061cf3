---- MODULE TraceSeekBuf ----
EXTENDS SeekBuf, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ci, ei, ss
INSTANCE Conform
====
