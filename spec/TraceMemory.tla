----------------------------- MODULE TraceMemory -----------------------------
(***************************************************************************)
(* Memory held by a map whose content stays bounded while its keys change  *)
(* for ever.  What the map holds when everything retired is reclaimed is a *)
(* function of what it contains, up to the slack of half-filled nodes and  *)
(* of tables: so what suffices during the first rounds, the warm-up, does  *)
(* so for ever, give or take a factor.  A destroyed map holds nothing.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
Slack  == 2048
Factor == 2

VARIABLES t, i,
  base,    \* held by the map when new
  n,       \* checkpoints so far
  most,    \* most held so far, within the warm-up
  peak     \* most keys at a checkpoint of the warm-up
vars == <<t, i, base, n, most, peak>>

TInit == t \in 1..Len(Traces) /\ i = 0 /\ base = 0 /\ n = 0 /\ most = 0 /\ peak = 0

Warm == n < Traces[t].warm
Max(a,b) == IF a > b THEN a ELSE b

Admits(e) ==
  CASE e[1] = "base" -> i = 0
    [] e[1] = "mem"  -> \/ Warm
                        \/ /\ e[2] <= peak                        \* the workload stays bounded
                           /\ e[3] - base <= Factor * (most - base) + Slack
    \* what is held, and what a new map needs for the same content: nodes may
    \* be a size too large, no more
    [] e[1] = "fresh" -> e[2] <= 4 * e[3] + Slack
    [] e[1] = "end"  -> e[2] = 0
    [] OTHER         -> FALSE

TNext ==
  /\ i < Len(Traces[t].ev)
  /\ t' = t
  /\ LET e == Traces[t].ev[i+1] IN
     IF Admits(e)
     THEN /\ i' = i + 1
          /\ base' = IF e[1] = "base" THEN e[2] ELSE base
          /\ n' = IF e[1] = "mem" THEN n + 1 ELSE n
          /\ most' = IF e[1] = "mem" /\ Warm THEN Max(most, e[3]) ELSE Max(most, base')
          /\ peak' = IF e[1] = "mem" /\ Warm THEN Max(peak, e[2]) ELSE peak
          /\ (i + 1 = Len(Traces[t].ev)) => PrintT(<<"ACCEPT", Traces[t].id>>)
     ELSE /\ PrintT(<<"REJECT", Traces[t].id, i + 1, ToString(e)>>)
          /\ i' = Len(Traces[t].ev) + 1 /\ UNCHANGED <<base, n, most, peak>>
TSpec == TInit /\ [][TNext]_vars
=============================================================================
