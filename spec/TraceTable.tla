------------------------------ MODULE TraceTable ------------------------------
(***************************************************************************)
(* Conformance of the benchmark's database adapters to Table.  A trace is  *)
(* a history of calls <<"c", thread, operation, record, arguments>> and    *)
(* returns <<"r", thread, result>>; S is the set of configurations the     *)
(* database may be in.  <<"gone", n>> ends it: the database was destroyed  *)
(* and left n of its allocations behind.                                   *)
(***************************************************************************)
EXTENDS Table, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, i, S
vars == <<t, i, S>>

NK == Traces[t].nk
Ev == Traces[t].ev[i+1]

TInit == /\ t \in 1..Len(Traces)
         /\ i = 0
         /\ S = TabInit(Traces[t].n, 1..Traces[t].th)

Next(e) ==
  CASE e[1] = "c"    -> TabCall(S, e[2], e[3], e[4], e[5])
    [] e[1] = "r"    -> TabReturn(S, e[2], e[3], NK)
    [] e[1] = "gone" -> IF e[2] = 0 THEN S ELSE {}
    [] OTHER         -> {}     \* "crash", "hang", "uaf", ...

TNext ==
  /\ i < Len(Traces[t].ev)
  /\ t' = t
  /\ LET X == Next(Ev) IN
     IF X # {}
     THEN /\ S' = X /\ i' = i + 1
          /\ (i + 1 = Len(Traces[t].ev)) => PrintT(<<"ACCEPT", Traces[t].id>>)
     ELSE /\ PrintT(<<"REJECT", Traces[t].id, i + 1, ToString(Ev)>>)
          /\ i' = Len(Traces[t].ev) + 1 /\ UNCHANGED S

TSpec == TInit /\ [][TNext]_vars
===============================================================================
