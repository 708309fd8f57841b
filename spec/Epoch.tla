-------------------------------- MODULE Epoch --------------------------------
(***************************************************************************)
(* The protocol of utils/EpochManager.h at the granularity of its memory   *)
(* accesses, on a machine with store buffers (x86-TSO): an atomic store    *)
(* that is not sequentially consistent waits in the thread's buffer until  *)
(* it is flushed; read-modify-writes and full fences drain the buffer.     *)
(*                                                                         *)
(* Threads read one shared slot inside epoch sections, replace its object, *)
(* retire the old one in a new or in the current epoch, and reclaim.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS T,        \* number of threads
          O,        \* number of objects (bounds the replacements)
          Visits,   \* sections each thread may open
          Fenced,   \* enter_epoch makes its epoch visible before going on
          ReadOnce, \* the minimum is taken over values each read once
          InNew     \* objects are retired in a new epoch (TRUE) or the current one

VARIABLES g, pub, sb, pc, loc, hold, list, idx, min, arg, freed, slot, nxt, left, since
vars == <<g, pub, sb, pc, loc, hold, list, idx, min, arg, freed, slot, nxt, left, since>>

Q == 1000           \* QUIESCENT_STATE
Th == 1..T

Init ==
  /\ g = 0 /\ pub = [t \in Th |-> Q] /\ sb = [t \in Th |-> <<>>]
  /\ pc = [t \in Th |-> "idle"] /\ loc = [t \in Th |-> 0]
  /\ hold = [t \in Th |-> {}] /\ list = [t \in Th |-> <<>>]
  /\ idx = [t \in Th |-> 0] /\ min = [t \in Th |-> Q] /\ arg = [t \in Th |-> 0]
  /\ freed = {} /\ slot = 1 /\ nxt = 2 /\ left = [t \in Th |-> Visits]
  /\ since = [t \in Th |-> {}]

\* what thread t reads of p's published epoch
See(t,p) == IF p = t /\ sb[t] # <<>> THEN sb[t][Len(sb[t])] ELSE pub[p]

Flush(t) == /\ sb[t] # <<>>
            /\ pub' = [pub EXCEPT ![t] = Head(sb[t])]
            /\ sb' = [sb EXCEPT ![t] = Tail(@)]
            /\ UNCHANGED <<g, pc, loc, hold, list, idx, min, arg, freed, slot, nxt, left, since>>

Enter1(t) == /\ pc[t] = "idle" /\ left[t] > 0
             /\ loc' = [loc EXCEPT ![t] = g]
             /\ left' = [left EXCEPT ![t] = @ - 1]
             /\ pc' = [pc EXCEPT ![t] = "store"]
             /\ UNCHANGED <<g, pub, sb, hold, list, idx, min, arg, freed, slot, nxt, since>>
Enter2(t) == /\ pc[t] = "store"
             /\ sb' = [sb EXCEPT ![t] = Append(@, loc[t])]
             /\ pc' = [pc EXCEPT ![t] = IF Fenced THEN "fence" ELSE "in"]
             /\ UNCHANGED <<g, pub, loc, hold, list, idx, min, arg, freed, slot, nxt, left, since>>
Enter3(t) == /\ pc[t] = "fence" /\ sb[t] = <<>>
             /\ pc' = [pc EXCEPT ![t] = "in"]
             /\ UNCHANGED <<g, pub, sb, loc, hold, list, idx, min, arg, freed, slot, nxt, left, since>>
Acquire(t) == /\ pc[t] = "in"
              /\ hold' = [hold EXCEPT ![t] = @ \cup {slot}]
              /\ UNCHANGED <<g, pub, sb, pc, loc, list, idx, min, arg, freed, slot, nxt, left, since>>
Exit(t) == /\ pc[t] = "in"
           /\ sb' = [sb EXCEPT ![t] = Append(@, Q)]
           /\ hold' = [hold EXCEPT ![t] = {}]
           /\ pc' = [pc EXCEPT ![t] = "idle"]
           /\ UNCHANGED <<g, pub, loc, list, idx, min, arg, freed, slot, nxt, left, since>>

\* replace the object (an atomic exchange), then retire the old one
Replace(t) == /\ pc[t] \in {"in","idle"} /\ nxt <= O /\ sb[t] = <<>>
              /\ arg' = [arg EXCEPT ![t] = slot]
              /\ slot' = nxt /\ nxt' = nxt + 1
              /\ pc' = [pc EXCEPT ![t] = IF pc[t] = "in" THEN "retire_in" ELSE "retire_idle"]
              /\ UNCHANGED <<g, pub, sb, loc, hold, list, idx, min, freed, left, since>>
Back(t) == IF pc[t] \in {"retire_in","push_in","scan_in","pick_in","reload_in"} THEN "in" ELSE "idle"
At(t,s) == s \o (IF Back(t) = "in" THEN "_in" ELSE "_idle")
Is(t,s) == pc[t] \in {s \o "_in", s \o "_idle"}
Retire1(t) == /\ Is(t,"retire")
              /\ (InNew => sb[t] = <<>>)
              /\ loc' = [loc EXCEPT ![t] = g]
              /\ g' = IF InNew THEN g + 1 ELSE g
              /\ pc' = [pc EXCEPT ![t] = At(t,"push")]
              /\ UNCHANGED <<pub, sb, hold, list, idx, min, arg, freed, slot, nxt, left, since>>
\* every retirement exceeds the threshold and starts reclaiming
Retire2(t) == /\ Is(t,"push")
              /\ list' = [list EXCEPT ![t] = Append(@, <<arg[t], loc[t]>>)]
              /\ idx' = [idx EXCEPT ![t] = 1] /\ min' = [min EXCEPT ![t] = Q]
              /\ pc' = [pc EXCEPT ![t] = At(t,"scan")]
              /\ UNCHANGED <<g, pub, sb, loc, hold, arg, freed, slot, nxt, left, since>>
Scan(t) == /\ Is(t,"scan") /\ idx[t] <= T
           /\ LET v == See(t, idx[t]) IN
              min' = [min EXCEPT ![t] = IF v < @ THEN v ELSE @]
           /\ arg' = [arg EXCEPT ![t] = IF See(t,idx[t]) < min[t] THEN idx[t] ELSE @]
           /\ idx' = [idx EXCEPT ![t] = @ + 1]
           /\ UNCHANGED <<g, pub, sb, pc, loc, hold, list, freed, slot, nxt, left, since>>
\* the minimal element is read again (what the code did before it was repaired)
Reload(t) == /\ Is(t,"scan") /\ idx[t] = T + 1
             /\ IF ReadOnce \/ min[t] = Q THEN UNCHANGED min
                ELSE min' = [min EXCEPT ![t] = See(t, arg[t])]
             /\ pc' = [pc EXCEPT ![t] = At(t,"pick")]
             /\ UNCHANGED <<g, pub, sb, loc, hold, list, idx, arg, freed, slot, nxt, left, since>>
Reclaim(t) ==
  /\ Is(t,"pick")
  /\ IF list[t] # <<>> /\ min[t] > list[t][1][2]
     THEN /\ freed' = freed \cup {list[t][1][1]}
          /\ list' = [list EXCEPT ![t] = Tail(@)]
          /\ UNCHANGED pc
     ELSE /\ pc' = [pc EXCEPT ![t] = Back(t)]
          /\ UNCHANGED <<freed, list>>
  /\ UNCHANGED <<g, pub, sb, loc, hold, idx, min, arg, slot, nxt, left, since>>
StartReclaim(t) == \* do_reclaim called on its own, when everything else is over
  /\ pc[t] = "idle" /\ list[t] # <<>> /\ nxt = O + 1 /\ \A x \in Th : left[x] = 0 /\ pc[x] = "idle"
  /\ idx' = [idx EXCEPT ![t] = 1] /\ min' = [min EXCEPT ![t] = Q]
  /\ pc' = [pc EXCEPT ![t] = "scan_idle"]
  /\ UNCHANGED <<g, pub, sb, loc, hold, list, arg, freed, slot, nxt, left, since>>

Next == \E t \in Th : Flush(t) \/ Enter1(t) \/ Enter2(t) \/ Enter3(t) \/ Acquire(t) \/ Exit(t)
                      \/ Replace(t) \/ Retire1(t) \/ Retire2(t) \/ Scan(t) \/ Reload(t) \/ Reclaim(t)
                      \/ StartReclaim(t)
Fair == \A t \in Th : WF_vars(Flush(t)) /\ WF_vars(StartReclaim(t) \/ Scan(t) \/ Reload(t) \/ Reclaim(t))
Spec == Init /\ [][Next]_vars
LSpec == Spec /\ Fair

\* C08: what a thread holds inside its section is not reclaimed
Safe == \A t \in Th : hold[t] \cap freed = {}
\* C09: an object is reclaimed only after it was retired, and only once
Waiting == UNION {{list[t][k][1] : k \in 1..Len(list[t])} : t \in Th}
Once == /\ Waiting \cap freed = {} /\ slot \notin freed
        /\ \A t, u \in Th : \A i \in 1..Len(list[t]), j \in 1..Len(list[u]) :
              (list[t][i][1] = list[u][j][1]) => t = u /\ i = j
\* once every thread has left for good, everything retired is reclaimed
Over == nxt = O + 1 /\ \A t \in Th : left[t] = 0 /\ pc[t] = "idle"
Drained == [](([]<>Over) => <>(freed = 1..(O-1)))
=============================================================================
