---- MODULE TraceAudioHdr ----
EXTENDS AudioHdr, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ci, ei, ss
INSTANCE Conform
====
