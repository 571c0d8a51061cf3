---- MODULE TraceBitIO ----
EXTENDS BitIO, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ci, ei, ss
INSTANCE Conform
====
