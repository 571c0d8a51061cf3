------------------------------ MODULE Conform ------------------------------
(***************************************************************************)
(* Trace validation, shared by every specification module of this          *)
(* directory.                                                              *)
(*                                                                         *)
(* A trace is a sequence of cases; a case is a configuration and a         *)
(* sequence of events; an event is an operation (name, arguments) together *)
(* with the result "r" that the real code returned for it.  A case is      *)
(* accepted when the specification has a behaviour that starts in one of   *)
(* StartStates(cfg) and takes, for each event in turn, a transition whose  *)
(* outcome is the observed one.  Nondeterminism of the specification is    *)
(* handled by carrying the set of all specification states that are        *)
(* consistent with the events seen so far (ss); the case is rejected when  *)
(* that set becomes empty.                                                 *)
(*                                                                         *)
(* Results such as [panic |-> ..] or [hang |-> TRUE] are not the outcome   *)
(* of any specified transition, hence always rejected.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Cases,             \* the recorded trace
          StartStates(_),   \* configuration -> set of initial states
          Outcomes(_, _)    \* state, event -> set of [st |-> .., res |-> ..]

VARIABLES ci,  \* index of the current case
          ei,  \* number of its events already consumed
          ss   \* specification states consistent with them

NCases == Len(Cases)
NChunks == 64

Start(i) == IF i <= NCases THEN StartStates(Cases[i].cfg) ELSE {}

CInit ==
  /\ ci \in 1 .. NChunks
  /\ ei = 0
  /\ ss = Start(ci)

\* what no specification allows: a crash, a hang, writing to the data of the caller,
\* changing data returned before, numbers beyond 32 bits where none can be
Never(r) == DOMAIN r \cap {"panic", "hang", "modified", "changed earlier results", "huge"} # {}

Matching(s, e) == {o.st : o \in {q \in Outcomes(s, e) : q.res = e.r}}

NextCase ==
  /\ ci' = ci + NChunks
  /\ ei' = 0
  /\ ss' = Start(ci + NChunks)

CNext ==
  /\ ci <= NCases
  /\ LET evs == Cases[ci].ev IN
     IF ei >= Len(evs)
     THEN /\ PrintT("ACCEPT " \o ToString(ci))
          /\ NextCase
     ELSE LET e  == evs[ei + 1]
              nx == IF Never(e.r) THEN {} ELSE UNION {Matching(s, e) : s \in ss}
          IN IF nx # {}
             THEN ci' = ci /\ ei' = ei + 1 /\ ss' = nx
             ELSE /\ PrintT("REJECT " \o ToJson(
                       [case |-> ci, ev |-> ei + 1,
                        expected |-> IF Never(e.r) THEN {"any specified outcome"}
                                      ELSE {o.res : o \in UNION {Outcomes(s, e) : s \in ss}}]))
                  /\ NextCase
=============================================================================
