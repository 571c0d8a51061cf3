---- MODULE TraceMp4Damage ----
EXTENDS Mp4Damage, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ci, ei, ss
INSTANCE Conform
====
