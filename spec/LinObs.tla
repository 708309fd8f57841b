-------------------------------- MODULE LinObs --------------------------------
(***************************************************************************)
(* The atomic dictionary object and its linearizability observer.          *)
(*                                                                         *)
(* A call is pending until its hidden atomic step, which fixes its result, *)
(* and returns later.  Because the atomic step is hidden, an observer has  *)
(* to track the set of all states the object may be in; a history is       *)
(* linearizable exactly while that set is not empty.  One configuration is *)
(* [m |-> dictionary, p |-> what each thread does].                        *)
(* Used on recorded histories of the code (TraceLin) and, as a ghost       *)
(* variable, inside the design models (HashTable, OptTree, ...).           *)
(***************************************************************************)
EXTENDS OrderedMap

Idle          == <<"idle">>
Pend(op,k,v)  == <<"pend", op, k, v>>
Done(res)     == <<"done", res>>

Result(m,op,k) ==
  CASE op = "ins" -> IF Present(m,k) THEN 0 ELSE 1
    [] OTHER      -> m[k]                      \* ups, upd, sea, del: the value before
After(m,op,k,v) ==
  CASE op = "ins" -> IF Present(m,k) THEN m ELSE Put(m,k,v)
    [] op = "ups" -> Put(m,k,v)
    [] op = "upd" -> IF Present(m,k) THEN Put(m,k,v) ELSE m
    [] op = "del" -> Drop(m,k)
    [] OTHER      -> m

LStep(c,th) == [m |-> After(c.m, c.p[th][2], c.p[th][3], c.p[th][4]),
                p |-> [c.p EXCEPT ![th] = Done(Result(c.m, c.p[th][2], c.p[th][3]))]]
LSteps(c)   == {LStep(c,th) : th \in {x \in DOMAIN c.p : c.p[x][1] = "pend"}}

RECURSIVE Close(_)
Close(X) == LET Y == X \cup UNION {LSteps(c) : c \in X}
            IN IF Y = X THEN X ELSE Close(Y)

LInit(m0, threads)    == {[m |-> m0, p |-> [x \in threads |-> Idle]]}
LCall(X,th,op,k,v)    == {[c EXCEPT !.p[th] = Pend(op,k,v)] : c \in X}
LReturn(X,th,res)     == {[c EXCEPT !.p[th] = Idle] : c \in {d \in Close(X) : d.p[th] = Done(res)}}
\* contents seen when nothing runs
LContents(X)          == {c.m : c \in X}
=============================================================================
