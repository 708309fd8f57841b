---------------------------- MODULE TraceWorkload ----------------------------
(* Conformance of recorded runs of the benchmark program to Workload, and of  *)
(* the property files it reads ("load": lines of a file, and all settings     *)
(* afterwards; "set": one setting).                                          *)
EXTENDS Workload, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, i, s, props
vars == <<t, i, s, props>>

C  == Traces[t].conf
Ev == Traces[t].ev[i+1]
TInit == t \in 1..Len(Traces) /\ i = 0 /\ s = Start /\ props = {}

Admits(e) == CASE e[1] = "set"  -> TRUE
               [] e[1] = "load" -> {e[3][j] : j \in 1..Len(e[3])} = LoadLines(props, e[2])
               [] OTHER -> Ok(C, s, e)
TNext ==
  /\ i < Len(Traces[t].ev)
  /\ t' = t
  /\ LET e == Ev IN
     IF Admits(e)
     THEN /\ i' = i + 1
          /\ CASE e[1] = "set"  -> props' = SetProp(props, e[2], e[3]) /\ s' = s
               [] e[1] = "load" -> props' = LoadLines(props, e[2]) /\ s' = s
               [] OTHER -> s' = Step(C, s, e) /\ props' = props
          /\ (i + 1 = Len(Traces[t].ev)) => PrintT(<<"ACCEPT", Traces[t].id>>)
     ELSE /\ PrintT(<<"REJECT", Traces[t].id, i + 1, ToString(e)>>)
          /\ i' = Len(Traces[t].ev) + 1 /\ UNCHANGED <<s, props>>
TSpec == TInit /\ [][TNext]_vars
==============================================================================
