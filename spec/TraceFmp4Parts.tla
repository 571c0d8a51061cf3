---- MODULE TraceFmp4Parts ----
EXTENDS Fmp4Parts, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ci, ei, ss
INSTANCE Conform
====
