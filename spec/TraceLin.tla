------------------------------- MODULE TraceLin -------------------------------
(***************************************************************************)
(* Conformance of concurrent executions of the real indexes to the         *)
(* dictionary of OrderedMap: linearizability, and whatever else must not   *)
(* happen on the way.                                                      *)
(*                                                                         *)
(* A trace is a history of calls and returns; S is the set of states the   *)
(* atomic dictionary may be in (see LinObs).                               *)
(*                                                                         *)
(* Concurrent scans are not atomic.  For each running scan the observer    *)
(* keeps, per key, whether it was present throughout (sure), and every     *)
(* value it may have had (may); see the comment at ScanYield.              *)
(***************************************************************************)
EXTENDS LinObs, TLC, Json, IOUtils

CONSTANTS
  Faults,   \* terminal events this check judges, e.g. {"uaf"}; others end the trace quietly
  Lin,      \* judge calls, returns and final contents?
  Scans     \* judge scans?

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, i, S, sc
vars == <<t, i, S, sc>>

N  == Traces[t].n
TH == 1..Traces[t].th
Ev == Traces[t].ev[i+1]
MapOf(vals) == [k \in 0..(Len(vals)-1) |-> vals[k+1]]

(***************************************************************************)
(* Scans.  While a scan runs, key k "may" yield any value of the initial   *)
(* possible values at its start and of any update of k pending or called   *)
(* since.  k is "sure" if some configuration-independent fact forces it    *)
(* present: it was present in every configuration when the scan began, and *)
(* no delete of k was pending then or called since.  A scan                *)
(*  - yields keys strictly monotonically,                                  *)
(*  - yields only values in may, and a key only if it may be present,      *)
(*  - skips no sure key.                                                   *)
(* It may be asked for the keys from lo to hi only, and may turn round: then *)
(* it goes on from the key it is at.                                       *)
(***************************************************************************)
Off == [on |-> FALSE]
PendingPuts(k) == {c.p[th][4] : <<c, th>> \in {x \in S \X TH : x[1].p[x[2]][1] = "pend"
                                      /\ x[1].p[x[2]][3] = k /\ x[1].p[x[2]][2] \in {"ins","ups","upd"}}}
PendingDel(k)  == \E c \in S : \E th \in TH : c.p[th][1] = "pend" /\ c.p[th][2] = "del" /\ c.p[th][3] = k
ScanStart(d, lo, hi) ==
  LET C == Close(S) IN
  [on |-> TRUE, dir |-> d, last |-> End, lo |-> lo, hi |-> hi,
   may  |-> [k \in 0..(N-1) |-> (({c.m[k] : c \in C} \cup PendingPuts(k)) \ {Absent})],
   sure |-> {k \in 0..(N-1) : ~PendingDel(k) /\ \A c \in C : Present(c.m, k)}]
\* a call made while scans run
ScanCall(s, op, k, v) ==
  IF ~s.on THEN s
  ELSE [s EXCEPT !.may  = IF op \in {"ins","ups","upd"} THEN [@ EXCEPT ![k] = @ \cup {v}] ELSE @,
                 !.sure = IF op = "del" THEN @ \ {k} ELSE @]
Passed(s,k) == \* the keys a scan passes when it goes on to k (or to the end: k = End)
  IF s.dir = "f" THEN {j \in s.lo..s.hi : j > s.last /\ (k = End \/ j < k)}
  ELSE {j \in s.lo..s.hi : (s.last = End \/ j < s.last) /\ (k = End \/ j > k)}
ScanYield(s,k,v) ==
  /\ k \in s.lo..s.hi
  /\ v \in s.may[k]
  /\ s.last = End \/ (IF s.dir = "f" THEN k > s.last ELSE k < s.last)
  /\ Passed(s,k) \cap s.sure = {}
ScanEnd(s) == IF s.dir = "f" /\ s.last = N-1 THEN TRUE ELSE Passed(s,End) \cap s.sure = {}

TInit == /\ t \in 1..Len(Traces)
         /\ i = 0
         /\ S = LInit(MapOf(Traces[t].init), 1..Traces[t].th)
         /\ sc = [x \in 1..Traces[t].th |-> Off]

(* Does the final content, seen by one thread, agree? *)
FinOk(e) == \E c \in S : c.m = MapOf(e[2]) /\ e[3] = Size(c.m)
ScanOk(e) == \E c \in S : LET ks == IF e[2] = "f" THEN KeySeq(c.m,N) ELSE RevKeySeq(c.m,N)
                          IN e[3] = ks /\ e[4] = ValsOf(c.m,ks)

\* Scans are judged against the contents the calls allow: follow those too.
Follow == Lin \/ Scans
(* "ok": the event is admitted; "stop": the execution ended here in a way   *)
(* another property judges; "bad": not admitted.                            *)
Retd(e)  == LReturn(S, e[2], e[3])
Judge(e) ==
  CASE e[1] = "c"    -> "ok"
    [] e[1] = "r"    -> IF ~Follow \/ Retd(e) # {} THEN "ok" ELSE IF Lin THEN "bad" ELSE "stop"
    [] e[1] = "fin"  -> IF ~Lin \/ FinOk(e) THEN "ok" ELSE "bad"
    [] e[1] = "scan" -> IF ~Lin \/ ScanOk(e) THEN "ok" ELSE "bad"
    [] e[1] \in {"sb", "st"} -> "ok"
    [] e[1] = "sy"   -> IF ~Scans \/ ScanYield(sc[e[2]], e[3], e[4]) THEN "ok" ELSE "bad"
    [] e[1] = "se"   -> IF ~Scans \/ ScanEnd(sc[e[2]]) THEN "ok" ELSE "bad"
    [] e[1] = "setup"-> "bad"
    [] OTHER         -> IF e[1] \in Faults THEN "bad" ELSE "stop"

NextS(e) ==
  CASE e[1] = "c" -> IF ~Follow THEN S ELSE LCall(S, e[2], e[3], e[4], e[5])
    [] e[1] = "r" /\ Follow -> Retd(e)
    [] e[1] = "fin" /\ Lin -> {c \in S : c.m = MapOf(e[2])}
    [] OTHER -> S
NextSc(e) ==
  CASE e[1] = "c"  -> [x \in TH |-> ScanCall(sc[x], e[3], e[4], e[5])]
    [] e[1] = "sb" -> [sc EXCEPT ![e[2]] = ScanStart(e[3], e[4], e[5])]
    [] e[1] = "st" -> [sc EXCEPT ![e[2]].dir = IF @ = "f" THEN "b" ELSE "f", ![e[2]].lo = 0, ![e[2]].hi = N-1]
    [] e[1] = "sy" -> [sc EXCEPT ![e[2]].last = e[3]]
    [] e[1] = "se" -> [sc EXCEPT ![e[2]] = Off]
    [] OTHER -> sc

TNext ==
  /\ i < Len(Traces[t].ev)
  /\ t' = t
  /\ LET e == Ev
         j == Judge(e)
     IN CASE j = "ok" ->
             /\ S' = NextS(e) /\ sc' = NextSc(e) /\ i' = i + 1
             /\ (i + 1 = Len(Traces[t].ev)) => PrintT(<<"ACCEPT", Traces[t].id>>)
          [] j = "stop" ->
             /\ PrintT(<<"ACCEPT", Traces[t].id>>)
             /\ i' = Len(Traces[t].ev) + 1 /\ UNCHANGED <<S, sc>>
          [] OTHER ->
             /\ PrintT(<<"REJECT", Traces[t].id, i + 1, ToString(e)>>)
             /\ i' = Len(Traces[t].ev) + 1 /\ UNCHANGED <<S, sc>>

TSpec == TInit /\ [][TNext]_vars
=============================================================================
