---- MODULE TracePmp4 ----
EXTENDS Pmp4, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ci, ei, ss
INSTANCE Conform
====
