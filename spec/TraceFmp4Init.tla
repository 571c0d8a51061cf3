---- MODULE TraceFmp4Init ----
EXTENDS Fmp4Init, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ci, ei, ss
INSTANCE Conform
====
