---------------------------- MODULE TraceLifetime ----------------------------
(***************************************************************************)
(* The life of the key and value objects a container holds.  An object is  *)
(* identified by where it lives.  A place is either dead (raw memory) or   *)
(* alive (holds a constructed object); construction is only admitted in a  *)
(* dead place, everything else only on a live one, copies and assignments  *)
(* only from a live one, and at the end nothing is alive any more.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, i, alive
vars == <<t, i, alive>>

TInit == t \in 1..Len(Traces) /\ i = 0 /\ alive = {}

Admits(e) ==
  CASE e[1] = "ctor" -> e[2] \notin alive                       \* from nothing
    [] e[1] = "copy" -> e[2] \notin alive /\ e[3] \in alive     \* from a live object
    [] e[1] = "asg"  -> e[2] \in alive /\ e[3] \in alive
    [] e[1] = "dtor" -> e[2] \in alive
    [] e[1] = "read" -> e[2] \in alive
    [] e[1] = "op"   -> TRUE                                     \* the public call being made
    \* at rest: exactly one live value object answers for each live key
    [] e[1] = "at"   -> e[3] \in alive
    [] e[1] = "end"  -> alive = {}
    [] OTHER         -> FALSE
NextAlive(e) ==
  CASE e[1] \in {"ctor","copy"} -> alive \cup {e[2]}
    [] e[1] = "dtor"            -> alive \ {e[2]}
    [] OTHER                    -> alive

TNext ==
  /\ i < Len(Traces[t].ev)
  /\ t' = t
  /\ LET e == Traces[t].ev[i+1] IN
     IF Admits(e)
     THEN /\ alive' = NextAlive(e) /\ i' = i + 1
          /\ (i + 1 = Len(Traces[t].ev)) => PrintT(<<"ACCEPT", Traces[t].id>>)
     ELSE /\ PrintT(<<"REJECT", Traces[t].id, i + 1, ToString(e)>>)
          /\ i' = Len(Traces[t].ev) + 1 /\ UNCHANGED alive
TSpec == TInit /\ [][TNext]_vars
=============================================================================
