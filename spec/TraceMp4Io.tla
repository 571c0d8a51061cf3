---- MODULE TraceMp4Io ----
EXTENDS Mp4Io, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ci, ei, ss
INSTANCE Conform
====
