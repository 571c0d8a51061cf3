---- MODULE TraceH264Dts ----
EXTENDS H264Dts, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ci, ei, ss
INSTANCE Conform
====
