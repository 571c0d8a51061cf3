---- MODULE TraceH265Dts ----
EXTENDS H265Dts, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ci, ei, ss
INSTANCE Conform
====
