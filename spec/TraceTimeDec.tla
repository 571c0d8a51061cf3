---- MODULE TraceTimeDec ----
EXTENDS Json, IOUtils, Integers
INSTANCE TimeDec WITH B <- 65536, Mod <- 131072
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ci, ei, ss
INSTANCE Conform
====
