---- MODULE TraceH265Ps ----
EXTENDS H265Ps, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ci, ei, ss
INSTANCE Conform
====
