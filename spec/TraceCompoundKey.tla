--------------------------- MODULE TraceCompoundKey ---------------------------
(* Conformance of the six comparison operators to CompoundKey: every event   *)
(* is one pair of real keys and what <, >, <=, >=, ==, != answered for it.    *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CK == INSTANCE CompoundKey WITH MaxLen <- 0, MaxRank <- 0, x <- 0, y <- 0

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, i
TInit == t \in 1..Len(Traces) /\ i = 0
Admits(e) ==
  CASE e[1] = "cmp" -> e[4] = CK!Answers(e[2], e[3])
    \* how a key built from a key (copy, assignment) compares to it
    [] e[1] = "same" -> e[3] = CK!Answers(e[2], e[2])
    [] OTHER -> FALSE
TNext ==
  /\ i < Len(Traces[t].ev)
  /\ t' = t
  /\ LET e == Traces[t].ev[i+1] IN
     IF Admits(e)
     THEN /\ i' = i + 1
          /\ (i + 1 = Len(Traces[t].ev)) => PrintT(<<"ACCEPT", Traces[t].id>>)
     ELSE /\ PrintT(<<"REJECT", Traces[t].id, i + 1, ToString(e)>>)
          /\ i' = Len(Traces[t].ev) + 1
TSpec == TInit /\ [][TNext]_<<t,i>>
=============================================================================
