---- MODULE TraceStreamDesc ----
EXTENDS StreamDesc, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ci, ei, ss
INSTANCE Conform
====
