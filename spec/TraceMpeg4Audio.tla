---- MODULE TraceMpeg4Audio ----
EXTENDS Mpeg4Audio, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ci, ei, ss
INSTANCE Conform
====
