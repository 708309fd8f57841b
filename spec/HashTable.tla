------------------------------ MODULE HashTable ------------------------------
(***************************************************************************)
(* Design of hashtable/concurrent_map.h: buckets, per-bucket chain offsets,*)
(* tomb stones, chain and bucket locks, and migration to a larger table, at *)
(* the granularity of the reads and writes other threads can observe.      *)
(* Ghost variable S is the linearizability observer of LinObs.             *)
(***************************************************************************)
EXTENDS LinObs, TLC

CONSTANTS NKeys, HashOf,    \* keys 0..NKeys-1 and their hashes (a sequence)
          NB0,              \* buckets of the first table
          Limit,            \* linear search limit
          Threads,          \* number of threads
          OpsPer,           \* operations per thread
          Kinds,            \* operations tried
          InitKeys,         \* sets of keys initially present (one is chosen)
          ChainLock,        \* inserts hold the lock of their chain
          StaleCheck,       \* updates check that their table is the current one
          LockedSearch      \* lookups read the value under the bucket lock

Th == 1..Threads
K  == 0..(NKeys-1)
H(k) == HashOf[k+1]
NoKey == -1

VARIABLES tab,   \* sequence of tables; the last published is cur
          cur, mig, migL,
          th,    \* thread states
          S, left, val
vars == <<tab, cur, mig, migL, th, S, left, val>>

FreeB == [st |-> "free", k |-> NoKey, v |-> 0]
NewTable(n) == [n |-> n, b |-> [i \in 0..(n-1) |-> FreeB],
                first |-> [i \in 0..(n-1) |-> 0], next |-> [i \in 0..(n-1) |-> 0],
                cl |-> [i \in 0..(n-1) |-> 0], bl |-> [i \in 0..(n-1) |-> 0],
                count |-> 0, tombs |-> 0]
Ideal(T,k) == H(k) % T.n

\* ---- sequential versions, for the initial table and for migration
RECURSIVE Tail0(_,_,_)
Tail0(T,i,isFirst) == LET l == IF isFirst THEN T.first[i] ELSE T.next[i]
                      IN IF l = 0 THEN <<i, isFirst>> ELSE Tail0(T, (i+l) % T.n, FALSE)
Sparse(T) == T.count * 2 <= T.n
FreeFrom(T,i) ==  \* offset of the first free bucket the search reaches from i, or -1
  LET Lim == IF Sparse(T) THEN T.n - 1 ELSE IF Limit < T.n - 1 THEN Limit ELSE T.n - 1
      F == {d \in 0..Lim : T.b[(i+d) % T.n].st = "free"}
  IN IF F = {} THEN -1 ELSE CHOOSE d \in F : \A e \in F : d <= e
Overflows(T,k) == FreeFrom(T, Tail0(T, Ideal(T,k), TRUE)[1]) = -1
Linked(T,tl,d,j,k,v) == [T EXCEPT !.b[j] = [st |-> "val", k |-> k, v |-> v],
                                  !.first[tl[1]] = IF tl[2] THEN d ELSE @,
                                  !.next[tl[1]]  = IF tl[2] THEN @ ELSE d,
                                  !.count = @ + 1]
Insert0(T,k,v) == LET tl == Tail0(T, Ideal(T,k), TRUE)
                      d  == FreeFrom(T, tl[1])
                  IN Linked(T, tl, d, (tl[1] + d) % T.n, k, v)
RECURSIVE Fill(_,_)
Fill(T,ks) == IF ks = <<>> THEN T ELSE Fill(Insert0(T, Head(ks), Head(ks)+1), Tail(ks))
KeysUp(X) == SelectSeq([i \in 1..NKeys |-> i-1], LAMBDA k : k \in X)

Loc0 == [pc |-> "idle", op |-> "none", k |-> 0, v |-> 0, t |-> 1, b |-> 0, f |-> TRUE,
         second |-> FALSE, d |-> 0, j |-> 0, res |-> 0, back |-> "none", i |-> 0, nt |-> 0]

Init == \E X \in InitKeys :
  /\ tab = <<Fill(NewTable(NB0), KeysUp(X))>>
  /\ cur = 1 /\ mig = FALSE /\ migL = 0
  /\ th = [t \in Th |-> Loc0]
  /\ S = LInit([k \in K |-> IF k \in X THEN k+1 ELSE Absent], Th)
  /\ left = [t \in Th |-> OpsPer]
  /\ val = 10

Go(t, upd) == th' = [th EXCEPT ![t] = upd]
T(t) == tab[th[t].t]
L(t) == th[t]

Call(t) == /\ L(t).pc = "idle" /\ left[t] > 0
           /\ \E op \in Kinds, k \in K :
                /\ Go(t, [Loc0 EXCEPT !.pc = "load", !.op = op, !.k = k, !.v = val + 1])
                /\ S' = LCall(S, t, op, k, val + 1)
           /\ val' = val + 1 /\ left' = [left EXCEPT ![t] = @ - 1]
           /\ UNCHANGED <<tab, cur, mig, migL>>
Load(t) == /\ L(t).pc = "load"
           /\ LET x == tab[cur] IN
              Go(t, [L(t) EXCEPT !.pc = "check", !.t = cur, !.b = Ideal(x, L(t).k), !.f = TRUE, !.second = FALSE])
           /\ UNCHANGED <<tab, cur, mig, migL, S, left, val>>
Holds(t) == T(t).b[L(t).b].st = "val" /\ T(t).b[L(t).b].k = L(t).k
\* compare the key in the bucket
Check(t) == /\ L(t).pc = "check"
            /\ Go(t, [L(t) EXCEPT !.pc = IF Holds(t) THEN "found" ELSE "link"])
            /\ UNCHANGED <<tab, cur, mig, migL, S, left, val>>
\* follow the chain
Follow(t) == /\ L(t).pc = "link"
             /\ LET l == IF L(t).f THEN T(t).first[L(t).b] ELSE T(t).next[L(t).b] IN
                Go(t, IF l = 0 THEN [L(t) EXCEPT !.pc = "missing"]
                      ELSE [L(t) EXCEPT !.pc = "check", !.b = (@ + l) % T(t).n, !.f = FALSE])
             /\ UNCHANGED <<tab, cur, mig, migL, S, left, val>>
Home(t) == Ideal(T(t), L(t).k)
Missing(t) ==
  /\ L(t).pc = "missing"
  /\ IF L(t).op \in {"sea","upd","del"} THEN /\ Go(t, [L(t) EXCEPT !.pc = "ret", !.res = Absent])
                                             /\ UNCHANGED tab
     ELSE IF ChainLock /\ ~L(t).second
     THEN /\ T(t).cl[Home(t)] = 0          \* lock the chain and search again
          /\ tab' = [tab EXCEPT ![L(t).t].cl[Home(t)] = t]
          /\ Go(t, [L(t) EXCEPT !.pc = "check", !.b = Home(t), !.f = TRUE, !.second = TRUE])
     ELSE /\ LET d == FreeFrom(T(t), L(t).b) IN
             IF d = -1
             THEN /\ Go(t, [L(t) EXCEPT !.pc = "migrate"])
                  /\ tab' = IF ChainLock THEN [tab EXCEPT ![L(t).t].cl[Home(t)] = 0] ELSE tab
             ELSE /\ Go(t, [L(t) EXCEPT !.pc = "take", !.d = d, !.j = (L(t).b + d) % T(t).n])
                  /\ UNCHANGED tab
  /\ UNCHANGED <<cur, mig, migL, S, left, val>>
\* lock the free bucket; it may have been taken meanwhile
Take(t) ==
  /\ L(t).pc = "take" /\ T(t).bl[L(t).j] = 0
  /\ IF T(t).b[L(t).j].st = "free"
     THEN /\ tab' = [tab EXCEPT ![L(t).t].bl[L(t).j] = t]
          /\ Go(t, [L(t) EXCEPT !.pc = "stale", !.back = "emplace"])
     ELSE /\ tab' = IF ChainLock THEN [tab EXCEPT ![L(t).t].cl[Home(t)] = 0] ELSE tab
          /\ Go(t, [L(t) EXCEPT !.pc = "load"])
  /\ UNCHANGED <<cur, mig, migL, S, left, val>>
\* lock the bucket found
Found(t) ==
  /\ L(t).pc = "found"
  /\ IF L(t).op = "sea" /\ ~LockedSearch
     THEN /\ Go(t, [L(t) EXCEPT !.pc = "ret", !.res = T(t).b[L(t).b].v]) /\ UNCHANGED tab
     ELSE /\ T(t).bl[L(t).b] = 0
          /\ IF T(t).b[L(t).b].st = "val"
             THEN IF L(t).op = "sea"
                  THEN /\ Go(t, [L(t) EXCEPT !.pc = "ret", !.res = T(t).b[L(t).b].v]) /\ UNCHANGED tab
                  ELSE /\ tab' = [tab EXCEPT ![L(t).t].bl[L(t).b] = t]
                       /\ Go(t, [L(t) EXCEPT !.pc = "stale", !.back = "modify", !.j = L(t).b])
             ELSE /\ tab' = IF ChainLock /\ L(t).second THEN [tab EXCEPT ![L(t).t].cl[Home(t)] = 0] ELSE tab
                  /\ Go(t, IF L(t).op = "sea" THEN [L(t) EXCEPT !.pc = "ret", !.res = Absent]
                           ELSE [L(t) EXCEPT !.pc = "load"])
  /\ UNCHANGED <<cur, mig, migL, S, left, val>>
Unlock(t, x) == [x EXCEPT ![L(t).t].bl[L(t).j] = 0,
                          ![L(t).t].cl[Home(t)] = IF @ = t THEN 0 ELSE @]
Stale(t) ==
  /\ L(t).pc = "stale"
  /\ IF mig \/ (StaleCheck /\ cur # L(t).t)
     THEN tab' = Unlock(t, tab) /\ Go(t, [L(t) EXCEPT !.pc = "wait"])
     ELSE UNCHANGED tab /\ Go(t, [L(t) EXCEPT !.pc = L(t).back])
  /\ UNCHANGED <<cur, mig, migL, S, left, val>>
Wait(t) == /\ L(t).pc = "wait" /\ migL = 0
           /\ Go(t, [L(t) EXCEPT !.pc = "load"])
           /\ UNCHANGED <<tab, cur, mig, migL, S, left, val>>
Emplace(t) == /\ L(t).pc = "emplace"
              /\ tab' = [tab EXCEPT ![L(t).t].b[L(t).j] = [st |-> "val", k |-> L(t).k, v |-> L(t).v],
                                    ![L(t).t].count = @ + 1]
              /\ Go(t, [L(t) EXCEPT !.pc = "setlink"])
              /\ UNCHANGED <<cur, mig, migL, S, left, val>>
SetLink(t) == /\ L(t).pc = "setlink"
              /\ LET x == [tab EXCEPT ![L(t).t].first[L(t).b] = IF L(t).f THEN L(t).d ELSE @,
                                      ![L(t).t].next[L(t).b]  = IF L(t).f THEN @ ELSE L(t).d]
                 IN tab' = Unlock(t, x)
              /\ Go(t, [L(t) EXCEPT !.pc = "ret", !.res = IF L(t).op = "ins" THEN 1 ELSE Absent])
              /\ UNCHANGED <<cur, mig, migL, S, left, val>>
Modify(t) == /\ L(t).pc = "modify"
             /\ LET old == T(t).b[L(t).j]
                    x == CASE L(t).op = "ins" -> tab
                           [] L(t).op \in {"ups","upd"} -> [tab EXCEPT ![L(t).t].b[L(t).j].v = L(t).v]
                           [] L(t).op = "del" -> [tab EXCEPT ![L(t).t].b[L(t).j].st = "tomb", ![L(t).t].tombs = @ + 1]
                IN /\ tab' = Unlock(t, x)
                   /\ Go(t, [L(t) EXCEPT !.pc = "ret", !.res = IF L(t).op = "ins" THEN 0 ELSE old.v])
             /\ UNCHANGED <<cur, mig, migL, S, left, val>>
Return(t) == /\ L(t).pc = "ret"
             /\ S' = LReturn(S, t, L(t).res)
             /\ Go(t, Loc0)
             /\ UNCHANGED <<tab, cur, mig, migL, left, val>>

\* ---- migration
RECURSIVE Pow2(_,_)
Pow2(n,p) == IF p >= n THEN p ELSE Pow2(n, 2*p)
Live0(x) == x.count - x.tombs
MigStart(t) == /\ L(t).pc = "migrate"
               /\ IF migL # 0 THEN Go(t, [L(t) EXCEPT !.pc = "wait"]) /\ UNCHANGED <<mig, migL, tab>>
                  ELSE /\ migL' = t /\ mig' = TRUE
                       /\ Go(t, [L(t) EXCEPT !.pc = "mnew"])
                       /\ UNCHANGED tab
               /\ UNCHANGED <<cur, S, left, val>>
MigNew(t) == /\ L(t).pc = "mnew"
             /\ tab' = Append(tab, NewTable(Pow2(2 * Live0(tab[cur]), 1)))
             /\ Go(t, [L(t) EXCEPT !.pc = "mcopy", !.i = 0, !.nt = Len(tab) + 1])
             /\ UNCHANGED <<cur, mig, migL, S, left, val>>
MigCopy(t) == /\ L(t).pc = "mcopy"
              /\ LET o == tab[cur] x == tab[L(t).nt] i == L(t).i IN
                 IF i = o.n THEN /\ cur' = L(t).nt
                                 /\ Go(t, [L(t) EXCEPT !.pc = "mdone"])
                                 /\ UNCHANGED tab
                 ELSE /\ o.bl[i] = 0
                      /\ UNCHANGED cur
                      /\ IF o.b[i].st # "val" THEN UNCHANGED tab /\ Go(t, [L(t) EXCEPT !.i = i + 1])
                         ELSE IF Overflows(x, o.b[i].k)
                         THEN /\ tab' = [tab EXCEPT ![L(t).nt] = NewTable(2 * x.n)]
                              /\ Go(t, [L(t) EXCEPT !.i = 0])
                         ELSE /\ tab' = [tab EXCEPT ![L(t).nt] = Insert0(x, o.b[i].k, o.b[i].v)]
                              /\ Go(t, [L(t) EXCEPT !.i = i + 1])
              /\ UNCHANGED <<mig, migL, S, left, val>>
MigDone(t) == /\ L(t).pc = "mdone"
              /\ mig' = FALSE
              /\ Go(t, [L(t) EXCEPT !.pc = "mrel"])
              /\ UNCHANGED <<tab, cur, migL, S, left, val>>
MigRel(t) == /\ L(t).pc = "mrel"
             /\ migL' = 0
             /\ Go(t, [L(t) EXCEPT !.pc = "load"])
             /\ UNCHANGED <<tab, cur, mig, S, left, val>>

Step(t) == \/ Load(t) \/ Check(t) \/ Follow(t) \/ Missing(t) \/ Take(t) \/ Found(t)
           \/ Stale(t) \/ Wait(t) \/ Emplace(t) \/ SetLink(t) \/ Modify(t) \/ Return(t)
           \/ MigStart(t) \/ MigNew(t) \/ MigCopy(t) \/ MigDone(t) \/ MigRel(t)
Next == \E t \in Th : Call(t) \/ Step(t)
Spec == Init /\ [][Next]_vars
LSpec == Spec /\ \A t \in Th : WF_vars(Step(t))

\* every history is linearizable
Linearizable == S # {}
\* with nothing running, the table holds what the history says, once per key
AllIdle == \A t \in Th : L(t).pc = "idle"
Holding(x,k) == {i \in 0..(x.n-1) : x.b[i].st = "val" /\ x.b[i].k = k}
RECURSIVE Reach(_,_,_)
Reach(x,i,f) == LET l == IF f THEN x.first[i] ELSE x.next[i]
                IN {i} \cup IF l = 0 THEN {} ELSE Reach(x, (i+l) % x.n, FALSE)
Content(x) == [k \in K |-> LET R == Reach(x, Ideal(x,k), TRUE) \cap Holding(x,k)
                           IN IF R = {} THEN Absent ELSE x.b[CHOOSE i \in R : TRUE].v]
Quiescent == AllIdle => /\ Content(tab[cur]) \in LContents(S)
                        /\ \A k \in K : Cardinality(Holding(tab[cur],k)) <= 1
                        /\ Live0(tab[cur]) = Size(Content(tab[cur]))
                        /\ migL = 0 /\ ~mig
\* a thread that is not idle never gets stuck: some thread can move
NoDeadlock == AllIdle \/ \E t \in Th : ENABLED Step(t)
\* every operation ends
Terminates == \A t \in Th : (L(t).pc # "idle") ~> (L(t).pc = "idle")
=============================================================================
