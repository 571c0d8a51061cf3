---- MODULE TraceH264Sps ----
EXTENDS H264Sps, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ci, ei, ss
INSTANCE Conform
====
