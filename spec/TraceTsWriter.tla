---- MODULE TraceTsWriter ----
EXTENDS TsWriter, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ci, ei, ss
INSTANCE Conform
====
