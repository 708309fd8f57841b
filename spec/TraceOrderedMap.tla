--------------------------- MODULE TraceOrderedMap ---------------------------
(***************************************************************************)
(* Conformance of recorded executions of the real indexes, used by one     *)
(* thread, to OrderedMap.  Each trace is one execution; its events are the *)
(* calls made, with their arguments and observed results, in order.  Every *)
(* initial state starts one trace; every step consumes one event and is    *)
(* enabled as an accepting step exactly when OrderedMap admits the result. *)
(***************************************************************************)
EXTENDS OrderedMap, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, i, m, cur
vars == <<t, i, m, cur>>

N  == Traces[t].n
Ev == Traces[t].ev[i+1]
Val(mm,k) == IF k = End THEN Absent ELSE mm[k]

TInit == /\ t \in 1..Len(Traces)
         /\ i = 0
         /\ m = EmptyMap(Traces[t].n)
         /\ cur = <<"f", End>>

(* Is the observed result one the specification admits? *)
Admits(e) ==
  CASE e[1] = "set"   -> TRUE
    [] e[1] = "sub"   -> e[3] = SubscriptVal(m,e[2])
    [] e[1] = "find"  -> e[3] = m[e[2]]
    [] e[1] = "erase" -> e[3] = (IF Present(m,e[2]) THEN 1 ELSE 0)
    [] e[1] = "erit"  -> Present(m,e[2])
    [] e[1] = "setit" -> Present(m,e[2])
    [] e[1] = "size"  -> e[2] = Size(m) /\ e[3] = (IF Size(m) = 0 THEN 1 ELSE 0)
    [] e[1] = "scan"  -> LET ks == IF e[2] = "f" THEN KeySeq(m,N) ELSE RevKeySeq(m,N)
                         IN e[3] = ks /\ e[4] = ValsOf(m,ks)
    [] e[1] = "lb"    -> LET k == LowerBound(m,e[2],N) IN e[3] = k /\ e[4] = Val(m,k)
    [] e[1] = "ub"    -> LET k == UpperBound(m,e[2],N) IN e[3] = k /\ e[4] = Val(m,k)
    [] e[1] = "cur"   -> e[3] = End \/ e[3] \in Live(m)
    [] e[1] = "next"  -> LET k == IF cur[1] = "f" THEN NextPos(m,cur[2],N) ELSE RNextPos(m,cur[2],N)
                         IN cur[2] # End /\ e[2] = k /\ e[3] = Val(m,k)
    [] e[1] = "prev"  -> LET k == IF cur[1] = "f" THEN PrevPos(m,cur[2],N) ELSE RPrevPos(m,cur[2],N)
                         IN k # End /\ e[2] = k /\ e[3] = Val(m,k)
    \* stepping back, to before the first key if there is none
    [] e[1] = "pv"    -> LET k == IF cur[1] = "f" THEN LastFrom(m, cur[2]-1) ELSE FirstFrom(m, cur[2]+1, N)
                         IN cur[2] # End /\ e[2] = k /\ e[3] = Val(m,k)
    [] e[1] = "eq"    -> e[4] = (IF e[2] = e[3] THEN 1 ELSE 0)
    [] e[1] = "edge"  -> e[2] = (IF Size(m) = 0 THEN 1 ELSE 0) /\ e[3] = e[2]
    \* dictionary calls of the concurrent indexes and the radix trees
    [] e[1] = "ins"   -> e[4] = (IF Present(m,e[2]) THEN 0 ELSE 1)
    [] e[1] = "ups"   -> e[4] = m[e[2]]
    [] e[1] = "upd"   -> e[4] = m[e[2]]
    [] e[1] = "sea"   -> e[3] = m[e[2]]
    [] e[1] = "del"   -> e[3] = m[e[2]]
    \* range scans: e = <<"rng", dir, lo, loIncl, hi, hiIncl, keys, values>>
    [] e[1] = "rng"   -> LET ks == IF e[2] = "f" THEN RangeSeq(m,N,e[3],e[4]=1,e[5],e[6]=1)
                                   ELSE RRangeSeq(m,N,e[3],e[4]=1,e[5],e[6]=1)
                         IN e[7] = ks /\ e[8] = ValsOf(m,ks)
    [] OTHER          -> FALSE     \* "crash", "hang": never admitted

NextM(e) ==
  CASE e[1] \in {"set","setit","ups"} -> Put(m,e[2],e[3])
    [] e[1] = "sub"                   -> SubscriptMap(m,e[2])
    [] e[1] \in {"erase","erit","del"}-> Drop(m,e[2])
    [] e[1] = "ins"                   -> IF Present(m,e[2]) THEN m ELSE Put(m,e[2],e[3])
    [] e[1] = "upd"                   -> IF Present(m,e[2]) THEN Put(m,e[2],e[3]) ELSE m
    [] OTHER                          -> m
NextCur(e) ==
  CASE e[1] = "cur"               -> <<e[2], e[3]>>
    [] e[1] \in {"next","prev","pv"} -> <<cur[1], e[2]>>
    [] OTHER                      -> cur

TNext ==
  /\ i < Len(Traces[t].ev)
  /\ t' = t
  /\ LET e == Ev IN
     IF Admits(e)
     THEN /\ m' = NextM(e) /\ cur' = NextCur(e) /\ i' = i + 1
          /\ (i + 1 = Len(Traces[t].ev)) => PrintT(<<"ACCEPT", Traces[t].id>>)
     ELSE /\ PrintT(<<"REJECT", Traces[t].id, i + 1, ToString(e)>>)
          /\ i' = Len(Traces[t].ev) + 1 /\ UNCHANGED <<m, cur>>

TSpec == TInit /\ [][TNext]_vars
=============================================================================
