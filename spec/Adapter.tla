-------------------------------- MODULE Adapter --------------------------------
(***************************************************************************)
(* How the adapter of a concurrent map (ConcurrentMapDB) makes a table of  *)
(* records out of a linearizable map from keys to immutable records: an    *)
(* update reads the record and replaces it, under a lock that updates and  *)
(* deletes of the record take.  One record is enough.                      *)
(* Locks: which operations take that lock; with fewer than both, TLC has   *)
(* to find the anomaly.                                                    *)
(***************************************************************************)
EXTENDS Table

CONSTANTS Threads, OpsPer, Locks
F == 2
TH == 1..Threads
Calls == {<<"ins", 0>>, <<"upd", 1>>, <<"upd", 2>>, <<"del", 0>>, <<"rd", 0>>}

VARIABLES rec,    \* the map: the record stored, or None
          lock,   \* who holds the record's lock, or 0
          pc, op, old, left,
          S       \* the configurations Table allows
vars == <<rec, lock, pc, op, old, left, S>>

Init == /\ rec = None /\ lock = 0
        /\ pc = [x \in TH |-> "idle"] /\ op = [x \in TH |-> <<>>] /\ old = [x \in TH |-> None]
        /\ left = [x \in TH |-> OpsPer]
        /\ S = TabInit(1, TH)

\* a value no other call writes
Val(x) == 10*x + left[x]
Args(x, c) ==
  CASE c[1] = "ins" -> <<Val(x), Val(x)>>
    [] c[1] = "upd" -> IF c[2] = 1 THEN <<Val(x), -1>> ELSE <<-1, Val(x)>>
    [] c[1] = "rd"  -> <<1, 1>>
    [] OTHER -> <<>>

Call(x) == /\ pc[x] = "idle" /\ left[x] > 0
           /\ \E c \in Calls :
                /\ op' = [op EXCEPT ![x] = <<c[1], Args(x, c)>>]
                /\ S' = TabCall(S, x, c[1], 0, Args(x, c))
                /\ pc' = [pc EXCEPT ![x] = IF c[1] \in Locks THEN "lock" ELSE "go"]
           /\ UNCHANGED <<rec, lock, old, left>>
Lock(x) == /\ pc[x] = "lock" /\ lock = 0
           /\ lock' = x /\ pc' = [pc EXCEPT ![x] = "go"]
           /\ UNCHANGED <<rec, op, old, left, S>>
Return(x, res) == /\ S' = TabReturn(S, x, res, 1)
                  /\ pc' = [pc EXCEPT ![x] = "idle"]
                  /\ left' = [left EXCEPT ![x] = @ - 1]
                  /\ lock' = IF lock = x THEN 0 ELSE lock
                  /\ UNCHANGED <<op, old>>
Go(x) ==
  /\ pc[x] = "go"
  /\ LET o == op[x][1]  a == op[x][2] IN
     CASE o = "ins" -> /\ rec' = IF rec = None THEN a ELSE rec
                       /\ Return(x, IF rec = None THEN <<OK>> ELSE <<Conflict>>)
       [] o = "del" -> /\ rec' = None
                       /\ Return(x, IF rec = None THEN <<NoData>> ELSE <<OK>>)
       [] o = "rd"  -> /\ rec' = rec
                       /\ Return(x, IF rec = None THEN <<NoData>> ELSE <<OK, rec>>)
       [] o = "upd" -> /\ old' = [old EXCEPT ![x] = rec]
                       /\ pc' = [pc EXCEPT ![x] = IF rec = None THEN "create" ELSE "replace"]
                       /\ UNCHANGED <<rec, lock, op, left, S>>
Create(x) ==   \* insert, unless somebody else did
  /\ pc[x] = "create"
  /\ IF rec = None THEN rec' = op[x][2] /\ Return(x, <<OK>>)
     ELSE /\ pc' = [pc EXCEPT ![x] = "go"]
          /\ UNCHANGED <<rec, lock, op, old, left, S>>
Replace(x) ==
  /\ pc[x] = "replace"
  /\ rec' = IF rec = None THEN None ELSE Overwrite(old[x], op[x][2])
  /\ Return(x, <<OK>>)

Next == \E x \in TH : Call(x) \/ Lock(x) \/ Go(x) \/ Create(x) \/ Replace(x)
Spec == Init /\ [][Next]_vars

Linearizable == S # {}
\* when nothing runs, what is stored is what the history says
Contents == (\A x \in TH : pc[x] = "idle") => \E c \in S : c.d[0] = rec
================================================================================
