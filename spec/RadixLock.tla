------------------------------ MODULE RadixLock ------------------------------
(***************************************************************************)
(* Design of art/concurrent_map.h: how the radix tree is shared.  Readers   *)
(* follow pointers and take no locks but that of the leaf they read; writers *)
(* remember the version of each node before they read it, lock bottom-up,   *)
(* and start again if a version moved; a replaced node is marked dead.      *)
(* Nodes of two sizes (2 and 3 children) stand for 4/16/48/256; keys are    *)
(* sequences of digits.  What the path compression does to one user's tree  *)
(* is Radix.tla; here it is who sees what.  Ghost S is LinObs's observer.   *)
(***************************************************************************)
EXTENDS LinObs, TLC

CONSTANTS Keys,              \* digits of key 0, 1, ... (a sequence of sequences)
          Threads, OpsPer, Kinds, Inits,  \* Inits: sequences of keys inserted first
          CheckVersion,      \* lock() compares the version
          CheckDead,         \* lock() refuses versions read from dead nodes
          MarkDead,          \* replaced and removed nodes are marked
          CheckRoot,         \* changes of the root compare it with the one read
          BumpVersion,       \* a change of a node moves its version
          DecompLock,        \* splitting a prefix locks the node below, too
          ReplDead           \* shrinking refuses a dead replacement

Th == 1..Threads
NK == Len(Keys)
K  == 0..(NK-1)
D(k) == Keys[k+1]
KeyLen == Len(Keys[1])
Digit == 0..2
DEAD == -1

VARIABLES nd, root, rmx, th, S, left, val, twice
vars == <<nd, root, rmx, th, S, left, val, twice>>

Node0 == [leaf |-> FALSE, pre |-> <<>>, k |-> 0, v |-> 0, cap |-> 2, n |-> 0,
          ch |-> [d \in Digit |-> 0], ver |-> 0, mx |-> 0]
LeafN(k, v) == [Node0 EXCEPT !.leaf = TRUE, !.k = k, !.v = v, !.pre = D(k)]
Lev(x) == Len(x.pre)
Size1(x) == Cardinality({d \in Digit : x.ch[d] # 0})
NewId == Cardinality(DOMAIN nd) + 1
Lcp(p, q) == LET M == {i \in 0..Len(p) : i <= Len(q) /\ SubSeq(p,1,i) = SubSeq(q,1,i)}
             IN MaxOf(M)
Compact(x, cap) == [Node0 EXCEPT !.pre = x.pre, !.cap = cap, !.n = Size1(x), !.ch = x.ch]
Bigger(x) == Compact(x, IF Size1(x) < x.n THEN x.cap ELSE x.cap + 1)
Under(x) == IF x.cap = 2 THEN Size1(x) <= 1 ELSE Size1(x) <= 2
Pair(lev, p, a, pa, b, pb) == [Node0 EXCEPT !.pre = SubSeq(p, 1, lev), !.n = 2,
                                 !.ch = [d \in Digit |-> IF d = pa[lev+1] THEN a ELSE IF d = pb[lev+1] THEN b ELSE 0]]

\* ---- the initial tree: sequential insertion
RECURSIVE Place(_,_,_,_,_)
Place(x, n, par, k, r) ==  \* from node n with parent par; r the root: <<nodes, root>>
  LET id == Cardinality(DOMAIN x) + 1 leaf == LeafN(k, k + 1)
      set(y, new) == IF par = 0 THEN <<y, new>> ELSE <<[y EXCEPT ![par].ch[D(k)[Lev(y[par])+1]] = new], r>>
  IN IF n = 0 THEN IF par = 0 THEN <<x @@ (id :> leaf), id>>
                   ELSE LET y == [x EXCEPT ![par].ch[D(k)[Lev(x[par])+1]] = id, ![par].n = @ + 1, ![par].cap = IF x[par].n = @ THEN @ + 1 ELSE @] IN <<y @@ (id :> leaf), r>>
     ELSE LET l == Lcp(x[n].pre, D(k)) IN
          IF l = Lev(x[n]) /\ ~x[n].leaf THEN Place(x, x[n].ch[D(k)[l+1]], n, k, r)
          ELSE set(x @@ (id :> leaf) @@ ((id + 1) :> Pair(l, D(k), id, D(k), n, x[n].pre)), id + 1)
RECURSIVE Plant(_,_)
Plant(s, ks) == IF ks = <<>> THEN s ELSE Plant(Place(s[1], s[2], 0, Head(ks), s[2]), Tail(ks))

Loc0 == [pc |-> "idle", op |-> "none", k |-> 0, v |-> 0, res |-> 0, rs |-> 0,
         n |-> 0, nv |-> 0, p |-> 0, pv |-> 0, g |-> 0, gv |-> 0, m |-> 0, after |-> "none"]

Init == \E I \in Inits :
  /\ LET s == Plant(<<<<>>, 0>>, I) IN nd = s[1] /\ root = s[2]
  /\ rmx = 0 /\ twice = FALSE
  /\ th = [t \in Th |-> Loc0]
  /\ S = LInit([k \in K |-> IF \E i \in DOMAIN I : I[i] = k THEN k+1 ELSE Absent], Th)
  /\ left = [t \in Th |-> OpsPer] /\ val = 10

L(t) == th[t]
Go(t, l) == th' = [th EXCEPT ![t] = l]
Ghost == UNCHANGED <<S, left, val>>
Read == UNCHANGED <<nd, root, rmx, twice>> /\ Ghost
Free(n) == nd[n].mx = 0
\* what lock() of a snapshot (node n, version v) finds
Ok(n, v) == (CheckVersion => nd[n].ver = v) /\ (CheckDead => v # DEAD)
RootOk(t) == CheckRoot => root = L(t).rs
Lock(x, t, n) == [x EXCEPT ![n].mx = t]
Unlock(x, t) == [n \in DOMAIN x |-> IF x[n].mx = t THEN [x[n] EXCEPT !.mx = 0] ELSE x[n]]
RUnlock(t) == rmx' = IF rmx = t THEN 0 ELSE rmx
Again(t) == [Loc0 EXCEPT !.pc = "root", !.op = L(t).op, !.k = L(t).k, !.v = L(t).v]
Finish(t, res) == [Loc0 EXCEPT !.pc = "ret", !.op = L(t).op, !.k = L(t).k, !.res = res]
NotFound(t) == Finish(t, IF L(t).op = "ins" THEN 1 ELSE Absent)
GiveUp(t) == nd' = Unlock(nd, t) /\ RUnlock(t) /\ Go(t, Again(t)) /\ UNCHANGED <<root, twice>> /\ Ghost
Dg(t, n) == D(L(t).k)[Lev(nd[n]) + 1]

Call(t) == /\ L(t).pc = "idle" /\ left[t] > 0
           /\ \E op \in Kinds, k \in K :
                /\ Go(t, [Loc0 EXCEPT !.pc = "root", !.op = op, !.k = k, !.v = val + 1])
                /\ S' = LCall(S, t, op, k, val + 1)
           /\ val' = val + 1 /\ left' = [left EXCEPT ![t] = @ - 1]
           /\ UNCHANGED <<nd, root, rmx, twice>>
Return(t) == /\ L(t).pc = "ret"
             /\ S' = LReturn(S, t, L(t).res)
             /\ Go(t, Loc0)
             /\ UNCHANGED <<nd, root, rmx, twice, left, val>>

\* ---- descent
Reads(t) == L(t).op = "sea"
To(t, l, n) == IF n = 0 THEN [l EXCEPT !.n = 0, !.pc = "null"]
               ELSE [l EXCEPT !.n = n, !.pc = IF Reads(t) THEN "at" ELSE "ver"]
ReadRoot(t) == /\ L(t).pc = "root"
               /\ Go(t, To(t, [L(t) EXCEPT !.rs = root], root)) /\ Read
Ver(t) == /\ L(t).pc = "ver"
          /\ Go(t, [L(t) EXCEPT !.nv = nd[L(t).n].ver, !.pc = "at"]) /\ Read
At(t) ==
  /\ L(t).pc = "at"
  /\ LET x == nd[L(t).n] c == Lcp(x.pre, D(L(t).k)) IN
     Go(t, IF c = Lev(x) THEN [L(t) EXCEPT !.pc = IF x.leaf THEN "hit" ELSE "find"]
           ELSE IF L(t).op \notin {"ins", "ups"} THEN NotFound(t)
           ELSE IF c > (IF L(t).p = 0 THEN 0 ELSE Lev(nd[L(t).p])) THEN [L(t) EXCEPT !.pc = "split"]
           ELSE [L(t) EXCEPT !.pc = IF L(t).p = 0 THEN "newroot" ELSE "addp"])
  /\ Read
Find(t) ==
  /\ L(t).pc = "find"
  /\ Go(t, To(t, [L(t) EXCEPT !.g = L(t).p, !.gv = L(t).pv, !.p = L(t).n, !.pv = L(t).nv], nd[L(t).n].ch[Dg(t, L(t).n)]))
  /\ Read
Null(t) ==
  /\ L(t).pc = "null"
  /\ Go(t, IF L(t).op \notin {"ins", "ups"} THEN NotFound(t)
           ELSE [L(t) EXCEPT !.pc = IF L(t).p = 0 THEN "newroot" ELSE "addp"])
  /\ Read

\* ---- the leaf of the key
Kill(x, n) == [x EXCEPT ![n].ver = IF MarkDead THEN DEAD ELSE @]
Killed(n) == twice' = (twice \/ (MarkDead /\ nd[n].ver = DEAD))
Hit(t) ==
  /\ L(t).pc = "hit" /\ Free(L(t).n)
  /\ LET x == nd[L(t).n] IN
     CASE L(t).op = "sea" -> Go(t, Finish(t, x.v)) /\ Read
       [] L(t).op = "ins" -> Go(t, Finish(t, 0)) /\ Read
       [] ~(L(t).op \in {"sea", "ins"}) /\ ~Ok(L(t).n, L(t).nv) -> Go(t, Again(t)) /\ Read
       [] L(t).op \in {"ups", "upd"} /\ Ok(L(t).n, L(t).nv) ->
            /\ nd' = [nd EXCEPT ![L(t).n].v = L(t).v]
            /\ Go(t, Finish(t, x.v)) /\ UNCHANGED <<root, rmx, twice>> /\ Ghost
       [] L(t).op = "del" /\ Ok(L(t).n, L(t).nv) ->
            /\ nd' = Lock(nd, t, L(t).n)
            /\ Go(t, [L(t) EXCEPT !.pc = IF L(t).p = 0 THEN "rmroot" ELSE "rm", !.res = x.v])
            /\ UNCHANGED <<root, rmx, twice>> /\ Ghost
RmRoot(t) ==
  /\ L(t).pc = "rmroot" /\ rmx = 0
  /\ IF ~RootOk(t) THEN GiveUp(t)
     ELSE /\ root' = 0 /\ rmx' = t
          /\ Go(t, [L(t) EXCEPT !.pc = "rm3"]) /\ UNCHANGED <<nd, twice>> /\ Ghost
Rm(t) ==
  /\ L(t).pc = "rm" /\ Free(L(t).p)
  /\ IF ~Ok(L(t).p, L(t).pv) THEN GiveUp(t)
     ELSE /\ nd' = [Lock(nd, t, L(t).p) EXCEPT ![L(t).p].ch[Dg(t, L(t).p)] = 0]
          /\ Go(t, [L(t) EXCEPT !.pc = "rm2"]) /\ UNCHANGED <<root, rmx, twice>> /\ Ghost
Bump(x, n) == [x EXCEPT ![n].ver = IF BumpVersion /\ @ # DEAD THEN @ + 1 ELSE @]
Rm2(t) ==
  /\ L(t).pc = "rm2"
  /\ nd' = Bump(nd, L(t).p)
  /\ Go(t, [L(t) EXCEPT !.pc = "rm3", !.pv = Bump(nd, L(t).p)[L(t).p].ver])
  /\ UNCHANGED <<root, rmx, twice>> /\ Ghost
Rm3(t) ==
  /\ L(t).pc = "rm3"
  /\ nd' = Unlock(Kill(nd, L(t).n), t) /\ RUnlock(t) /\ Killed(L(t).n)
  /\ Go(t, IF L(t).p # 0 THEN [L(t) EXCEPT !.pc = "under"] ELSE Finish(t, L(t).res))
  /\ UNCHANGED root /\ Ghost

\* ---- putting node m in the place of node n below g (or as root): content, version
Put2(t, g, gv, m, after) == [L(t) EXCEPT !.pc = "put", !.g = g, !.gv = gv, !.m = m, !.after = after]
PutIn(t) ==
  /\ L(t).pc = "put"
  /\ IF L(t).g = 0
     THEN /\ rmx = 0
          /\ IF ~RootOk(t) THEN nd' = Unlock(nd, t) /\ UNCHANGED <<root, rmx>> /\ Go(t, IF L(t).after = "shrunk" THEN Finish(t, L(t).res) ELSE Again(t))
             ELSE root' = L(t).m /\ UNCHANGED <<nd, rmx>> /\ Go(t, [L(t) EXCEPT !.pc = L(t).after])
     ELSE /\ Free(L(t).g)
          /\ UNCHANGED <<root, rmx>>
          /\ IF ~Ok(L(t).g, L(t).gv) THEN nd' = Unlock(nd, t) /\ Go(t, IF L(t).after = "shrunk" THEN Finish(t, L(t).res) ELSE Again(t))
             ELSE /\ nd' = [Lock(nd, t, L(t).g) EXCEPT ![L(t).g].ch[Dg(t, L(t).g)] = L(t).m]
                  /\ Go(t, [L(t) EXCEPT !.pc = "put2"])
  /\ UNCHANGED twice /\ Ghost
PutIn2(t) ==
  /\ L(t).pc = "put2"
  /\ nd' = [Bump(nd, L(t).g) EXCEPT ![L(t).g].mx = 0]
  /\ Go(t, [L(t) EXCEPT !.pc = L(t).after])
  /\ UNCHANGED <<root, rmx, twice>> /\ Ghost

\* ---- a prefix or leaf splits: a new node above n holds n and the new leaf
Split(t) ==
  /\ L(t).pc = "split" /\ (DecompLock => Free(L(t).n))
  /\ IF DecompLock /\ ~Ok(L(t).n, L(t).nv) THEN GiveUp(t)
     ELSE LET x == nd[L(t).n] c == Lcp(x.pre, D(L(t).k)) IN
          /\ nd' = (IF DecompLock THEN Lock(nd, t, L(t).n) ELSE nd) @@ (NewId :> LeafN(L(t).k, L(t).v))
                   @@ ((NewId + 1) :> Pair(c, D(L(t).k), NewId, D(L(t).k), L(t).n, x.pre))
          /\ Go(t, Put2(t, L(t).p, L(t).pv, NewId + 1, "added"))
          /\ UNCHANGED <<root, rmx, twice>> /\ Ghost
Added(t) ==
  /\ L(t).pc = "added"
  /\ nd' = Unlock(nd, t) /\ RUnlock(t)
  /\ Go(t, NotFound(t)) /\ UNCHANGED <<root, twice>> /\ Ghost
NewRoot(t) ==
  /\ L(t).pc = "newroot" /\ rmx = 0
  /\ IF ~RootOk(t) THEN GiveUp(t)
     ELSE /\ nd' = nd @@ (NewId :> LeafN(L(t).k, L(t).v))
                   @@ (IF L(t).rs = 0 THEN <<>> ELSE (NewId + 1) :> Pair(0, <<>>, NewId, D(L(t).k), L(t).rs, nd[L(t).rs].pre))
          /\ root' = IF L(t).rs = 0 THEN NewId ELSE NewId + 1
          /\ Go(t, NotFound(t)) /\ UNCHANGED <<rmx, twice>> /\ Ghost

\* ---- the new leaf goes into node p, or into a larger copy of it
AddP(t) ==
  /\ L(t).pc = "addp" /\ Free(L(t).p)
  /\ IF ~Ok(L(t).p, L(t).pv) THEN GiveUp(t)
     ELSE LET x == nd[L(t).p] IN
          /\ UNCHANGED <<root, rmx, twice>> /\ Ghost
          /\ IF x.n < x.cap
             THEN nd' = Lock(nd, t, L(t).p) /\ Go(t, [L(t) EXCEPT !.pc = "add1", !.m = L(t).p])
             ELSE nd' = Lock(nd, t, L(t).p) @@ (NewId :> [Bigger(x) EXCEPT !.mx = t])
                  /\ Go(t, Put2(t, L(t).g, L(t).gv, NewId, "grown"))
Grown(t) ==
  /\ L(t).pc = "grown"
  /\ nd' = [Kill(nd, L(t).p) EXCEPT ![L(t).p].mx = 0] /\ Killed(L(t).p)
  /\ Go(t, [L(t) EXCEPT !.pc = "add1"]) /\ UNCHANGED <<root, rmx>> /\ Ghost
Add1(t) ==
  /\ L(t).pc = "add1"
  /\ nd' = [nd EXCEPT ![L(t).m].ch[Dg(t, L(t).m)] = NewId, ![L(t).m].n = @ + 1] @@ (NewId :> LeafN(L(t).k, L(t).v))
  /\ Go(t, [L(t) EXCEPT !.pc = "add2"]) /\ UNCHANGED <<root, rmx, twice>> /\ Ghost
Add2(t) ==
  /\ L(t).pc = "add2"
  /\ nd' = Unlock(Bump(nd, L(t).m), t)
  /\ Go(t, NotFound(t)) /\ UNCHANGED <<root, rmx, twice>> /\ Ghost

\* ---- node p, from which a leaf went, shrinks
UnderQ(t) ==
  /\ L(t).pc = "under"
  /\ Go(t, IF Under(nd[L(t).p]) THEN [L(t) EXCEPT !.pc = "shrink"] ELSE Finish(t, L(t).res)) /\ Read
Shrink(t) ==
  /\ L(t).pc = "shrink" /\ Free(L(t).p)
  /\ LET x == nd[L(t).p] IN
     IF ~Ok(L(t).p, L(t).pv) THEN Go(t, Finish(t, L(t).res)) /\ Read
     ELSE /\ UNCHANGED <<root, rmx, twice>> /\ Ghost
          /\ IF Size1(x) = 0 THEN nd' = Lock(nd, t, L(t).p) /\ Go(t, Put2(t, L(t).g, L(t).gv, 0, "shrunk"))
             ELSE IF x.cap = 2 THEN UNCHANGED nd /\ Go(t, [L(t) EXCEPT !.pc = "repl", !.m = x.ch[CHOOSE d \in Digit : x.ch[d] # 0]])
             ELSE nd' = nd @@ (NewId :> Compact(x, 2)) /\ Go(t, [L(t) EXCEPT !.pc = "repl", !.m = NewId])
Repl(t) ==
  /\ L(t).pc = "repl" /\ Free(L(t).m)
  /\ IF ReplDead /\ nd[L(t).m].ver = DEAD THEN Go(t, Finish(t, L(t).res)) /\ Read
     ELSE nd' = Lock(nd, t, L(t).m) /\ Go(t, [L(t) EXCEPT !.pc = "relock"]) /\ UNCHANGED <<root, rmx, twice>> /\ Ghost
Relock(t) ==
  /\ L(t).pc = "relock" /\ Free(L(t).p)
  /\ UNCHANGED <<root, rmx, twice>> /\ Ghost
  /\ IF ~Ok(L(t).p, L(t).pv) THEN nd' = Unlock(nd, t) /\ Go(t, Finish(t, L(t).res))
     ELSE nd' = Lock(nd, t, L(t).p) /\ Go(t, Put2(t, L(t).g, L(t).gv, L(t).m, "shrunk"))
Shrunk(t) ==
  /\ L(t).pc = "shrunk"
  /\ nd' = Unlock(Kill(nd, L(t).p), t) /\ Killed(L(t).p)
  /\ Go(t, Finish(t, L(t).res)) /\ UNCHANGED <<root, rmx>> /\ Ghost

Step(t) == \/ ReadRoot(t) \/ Ver(t) \/ At(t) \/ Find(t) \/ Null(t) \/ Hit(t) \/ RmRoot(t) \/ Rm(t) \/ Rm2(t) \/ Rm3(t)
           \/ PutIn(t) \/ PutIn2(t) \/ Split(t) \/ Added(t) \/ NewRoot(t) \/ AddP(t) \/ Grown(t) \/ Add1(t) \/ Add2(t)
           \/ UnderQ(t) \/ Shrink(t) \/ Repl(t) \/ Relock(t) \/ Shrunk(t) \/ Return(t)
Next == \E t \in Th : Call(t) \/ Step(t)
Spec == Init /\ [][Next]_vars

Linearizable == S # {}
\* nothing is marked dead, and so handed to the reclaimer, twice
DeadOnce == ~twice
AllIdle == \A t \in Th : L(t).pc = "idle"
NoDeadlock == AllIdle \/ \E t \in Th : ENABLED Step(t)
Kids(n) == {nd[n].ch[d] : d \in Digit} \ {0}
RECURSIVE Reach(_)
Reach(X) == LET Y == X \cup UNION {Kids(n) : n \in X} IN IF X = Y THEN X ELSE Reach(Y)
Tree == IF root = 0 THEN {} ELSE Reach({root})
\* at rest: what can be reached holds what the history says, hangs where its
\* digits say, nothing of it is dead and nothing is locked
Quiescent == AllIdle =>
  /\ [k \in K |-> LET P == {n \in Tree : nd[n].leaf /\ nd[n].k = k} IN IF P = {} THEN Absent ELSE nd[CHOOSE n \in P : TRUE].v] \in LContents(S)
  /\ \A n \in Tree : \A d \in Digit : nd[n].ch[d] # 0 =>
        LET c == nd[nd[n].ch[d]] IN Lev(c) > Lev(nd[n]) /\ SubSeq(c.pre, 1, Lev(nd[n]) + 1) = Append(nd[n].pre, d)
  /\ \A n \in Tree : nd[n].ver # DEAD
  /\ rmx = 0 /\ \A n \in DOMAIN nd : Free(n)
  /\ \A n \in Tree : ~nd[n].leaf => nd[n].n <= nd[n].cap /\ Size1(nd[n]) <= nd[n].n
=============================================================================
