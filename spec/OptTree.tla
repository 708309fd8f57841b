------------------------------- MODULE OptTree -------------------------------
(***************************************************************************)
(* Design of btree/concurrent_map.h: nodes with a state word (locked bit,  *)
(* deleted bit, version) and a mutex, traversals that only read state words *)
(* and traversals that hold the mutexes hand over hand, writers that check  *)
(* under the mutex that their leaf is still the one they found, splits,     *)
(* trims and merges that build new nodes and replace old ones, and range    *)
(* scans that go from leaf to leaf by their bounds.  Node 0 stands for the  *)
(* root pointer with its state word and mutex; its only child is the root.  *)
(* One action per read or write other threads can observe; reading a node   *)
(* that is being written gives anything.  Ghost S is LinObs's observer.     *)
(***************************************************************************)
EXTENDS LinObs, TLC

CONSTANTS NKeys, Cap,       \* keys 0..NKeys-1; entries (live and dead) per leaf
          Merge,            \* leaves of at most this many live entries merge
          ICap, IMerge,     \* children per inner node; inner nodes of at most this many merge
          TrimAt,           \* dead entries at which a full leaf is trimmed, not split
          Threads, OpsPer, Kinds, Calls(_), Trees,   \* initial trees (Calls: keys)
          LeafCheck,        \* writers check their leaf again under its mutex
          ParentCheck,      \* splits and merges check the parent again
          SplitCheck,       \* splits check the node again before replacing it
          MarkDeleted,      \* replaced nodes are marked deleted, with a new version
          SearchCheck,      \* readers check the leaf after reading it
          Pess              \* traversals may hold mutexes (else optimistic only)

Th  == 1..Threads
K   == 0..(NKeys-1)
Top == NKeys              \* the bound past every key

VARIABLES nd,             \* node id -> node
          th, S, left, val, seen
vars == <<nd, th, S, left, val, seen>>

NoE   == [k \in K |-> Absent]
Node0 == [leaf |-> FALSE, e |-> NoE, dead |-> 0, ch |-> <<>>, hi |-> Top,
          ver |-> 0, lk |-> FALSE, del |-> FALSE, mx |-> 0]
Leaf(e, dead, hi) == [Node0 EXCEPT !.leaf = TRUE, !.e = e, !.dead = dead, !.hi = hi]
Inner(ch)         == [Node0 EXCEPT !.ch = ch]
St(n) == [ver |-> nd[n].ver, lk |-> nd[n].lk, del |-> nd[n].del]
NewId == Cardinality(DOMAIN nd)
Live1(x) == {k \in K : x.e[k] # Absent}
Used(x) == Cardinality(Live1(x)) + x.dead
CanTrim(x) == x.dead >= TrimAt
Under(x) == Cardinality(Live1(x)) <= Merge
\* the child for key k: the last whose separator is at most k
ChildIx(ch, k) == CHOOSE i \in DOMAIN ch : ch[i].sep <= k /\ \A j \in DOMAIN ch : j > i => ch[j].sep > k
IxOf(ch, n) == CHOOSE i \in DOMAIN ch : ch[i].n = n

St0 == [ver |-> 0, lk |-> FALSE, del |-> FALSE]
Loc0 == [pc |-> "idle", op |-> "none", k |-> 0, v |-> 0, pess |-> FALSE, sn |-> <<>>,
         cur |-> -1, cs |-> St0, res |-> 0, again |-> FALSE, new |-> <<>>, tgt |-> 0,
         upd |-> Node0, next |-> "none", r |-> 0, got |-> <<>>, rd |-> <<>>, ix |-> 0, jx |-> 0]

Build(T) == [n \in 0..(Len(T)-1) |-> T[n+1]]
Contents(x) == [k \in K |-> LET P == {n \in DOMAIN x : x[n].leaf /\ ~x[n].del /\ x[n].e[k] # Absent}
                            IN IF P = {} THEN Absent ELSE x[CHOOSE n \in P : TRUE].e[k]]
Init == \E T \in Trees :
  /\ nd = Build(T)
  /\ th = [t \in Th |-> Loc0]
  /\ S = LInit(Contents(Build(T)), Th)
  /\ left = [t \in Th |-> OpsPer]
  /\ val = 10
  /\ seen = [t \in Th |-> <<>>]

L(t) == th[t]
Go(t, upd) == th' = [th EXCEPT ![t] = upd]
Keep == UNCHANGED <<S, left, val, seen>>
Read == UNCHANGED <<nd, S, left, val, seen>>
Free(n) == nd[n].mx = 0
Held(x, t, n) == [x EXCEPT ![n].mx = t]
Rel(x, N) == [n \in DOMAIN x |-> IF n \in N THEN [x[n] EXCEPT !.mx = 0] ELSE x[n]]
Mine(t) == {n \in DOMAIN nd : nd[n].mx = t}
Last1(s) == s[Len(s)]
LeafOf(t) == Last1(L(t).sn).n
Stale(s) == St(s.n) # s.st
Found1(t) == Last1(L(t).sn)

\* ---- what scans may and must return: keys possibly and certainly present since
Must(X) == {k \in K : \A c \in Close(X) : c.m[k] # Absent}
May(X)  == {k \in K : \E c \in Close(X) : c.m[k] # Absent}
Grow(X) == [t \in Th |-> IF seen[t] = <<>> THEN <<>> ELSE <<seen[t][1] \cap Must(X), seen[t][2] \cup May(X)>>]

Call(t) == /\ L(t).pc = "idle" /\ left[t] > 0
           /\ \E op \in Kinds, k \in Calls(t) :
                /\ op = "scan" => k = 0
                /\ Go(t, [Loc0 EXCEPT !.pc = IF op \in {"ins","ups"} THEN "ensure" ELSE "root", !.op = op, !.k = k, !.v = val + 1])
                /\ S' = IF op = "scan" THEN S ELSE LCall(S, t, op, k, val + 1)
                /\ seen' = LET g == Grow(S') IN IF op = "scan" THEN [g EXCEPT ![t] = <<Must(S'), May(S')>>] ELSE g
           /\ val' = val + 1 /\ left' = [left EXCEPT ![t] = @ - 1]
           /\ UNCHANGED nd
Return(t) == /\ L(t).pc = "ret"
             /\ S' = IF L(t).op = "scan" THEN S ELSE LReturn(S, t, L(t).res)
             /\ seen' = [Grow(S') EXCEPT ![t] = <<>>]
             /\ Go(t, Loc0)
             /\ UNCHANGED <<nd, left, val>>
\* every key a finishing scan had to find is there, in order, and no other
ScanOk == \A t \in Th : L(t).pc = "ret" /\ L(t).op = "scan" =>
            /\ seen[t][1] \subseteq {L(t).got[i] : i \in DOMAIN L(t).got}
            /\ {L(t).got[i] : i \in DOMAIN L(t).got} \subseteq seen[t][2]
            /\ \A i \in 1..(Len(L(t).got)-1) : L(t).got[i] < L(t).got[i+1]

Restart(t) == [Loc0 EXCEPT !.pc = IF L(t).op \in {"ins","ups"} THEN "ensure" ELSE "root", !.op = L(t).op, !.k = L(t).k, !.v = L(t).v,
                           !.got = L(t).got]
Finish(t, res) == [Loc0 EXCEPT !.pc = "ret", !.op = L(t).op, !.k = L(t).k, !.res = res, !.got = L(t).got]

\* ---- writing node tgt, whose mutex is held: lock bit, contents, version
Write(t, l, tgt, upd, next) == [l EXCEPT !.pc = "w1", !.tgt = tgt, !.upd = upd, !.next = next]
W1(t) == /\ L(t).pc = "w1"
         /\ nd' = [nd EXCEPT ![L(t).tgt].lk = TRUE]
         /\ Go(t, [L(t) EXCEPT !.pc = "w2"]) /\ Keep
W2(t) == /\ L(t).pc = "w2"
         /\ LET u == L(t).upd IN
            nd' = [nd EXCEPT ![L(t).tgt].e = u.e, ![L(t).tgt].dead = u.dead, ![L(t).tgt].ch = u.ch]
         /\ Go(t, [L(t) EXCEPT !.pc = "w3"]) /\ Keep
W3(t) == /\ L(t).pc = "w3"
         /\ nd' = [nd EXCEPT ![L(t).tgt].lk = FALSE, ![L(t).tgt].ver = @ + 1]
         /\ Go(t, [L(t) EXCEPT !.pc = L(t).next, !.upd = Node0]) /\ Keep

\* ---- the root exists before an insert
Ensure(t) == /\ L(t).pc = "ensure"
             /\ Go(t, [L(t) EXCEPT !.pc = IF nd[0].ch = <<>> THEN "mkroot" ELSE "root"]) /\ Read
MkRoot(t) == /\ L(t).pc = "mkroot" /\ Free(0)
             /\ IF nd[0].ver # 0 THEN Go(t, [L(t) EXCEPT !.pc = "ensure"]) /\ Read
                ELSE /\ nd' = Held(nd, t, 0) @@ (NewId :> Leaf(NoE, 0, Top))
                     /\ Go(t, Write(t, L(t), 0, Inner(<<[sep |-> 0, n |-> NewId]>>), "mkdone")) /\ Keep
MkDone(t) == /\ L(t).pc = "mkdone"
             /\ nd' = Rel(nd, Mine(t))
             /\ Go(t, [L(t) EXCEPT !.pc = "ensure"]) /\ Keep

\* ---- traversal to the leaf for key k
Root(t) == /\ L(t).pc = "root"
           /\ \/ /\ ~nd[0].lk
                 /\ Go(t, [L(t) EXCEPT !.pc = "child", !.pess = FALSE, !.sn = <<[n |-> 0, st |-> St(0)]>>])
                 /\ UNCHANGED nd
              \/ /\ Pess /\ Free(0)
                 /\ nd' = Held(nd, t, 0)
                 /\ Go(t, [L(t) EXCEPT !.pc = "child", !.pess = TRUE, !.sn = <<[n |-> 0, st |-> St(0)]>>])
           /\ Keep
Child(t) == /\ L(t).pc = "child"
            /\ LET p == Found1(t).n x == nd[p] IN
               IF x.ch = <<>> THEN Go(t, [L(t) EXCEPT !.pc = "nothing"])
               ELSE \E i \in DOMAIN x.ch :
                      /\ x.lk \/ i = ChildIx(x.ch, L(t).k)
                      /\ Go(t, [L(t) EXCEPT !.cur = x.ch[i].n, !.pc = IF p = 0 THEN "enter" ELSE "recheck"])
            /\ Read
Recheck(t) == /\ L(t).pc = "recheck"
              /\ Go(t, IF Stale(Found1(t)) THEN Restart(t) ELSE [L(t) EXCEPT !.pc = "enter"]) /\ Read
Enter(t) == /\ L(t).pc = "enter"
            /\ IF L(t).pess
               THEN /\ Free(L(t).cur)
                    /\ nd' = [Held(nd, t, L(t).cur) EXCEPT ![Found1(t).n].mx = 0]
                    /\ Go(t, [L(t) EXCEPT !.sn = Append(@, [n |-> L(t).cur, st |-> St(L(t).cur)]),
                                          !.pc = IF nd[L(t).cur].del THEN "lost" ELSE IF nd[L(t).cur].leaf THEN "leaf" ELSE "child"])
               ELSE /\ ~nd[L(t).cur].lk
                    /\ Go(t, IF nd[L(t).cur].del THEN Restart(t)
                             ELSE [L(t) EXCEPT !.pc = "entered", !.cs = St(L(t).cur)])
                    /\ UNCHANGED nd
            /\ Keep
Entered(t) == /\ L(t).pc = "entered"
              /\ Go(t, IF Stale(Found1(t)) THEN Restart(t)
                       ELSE [L(t) EXCEPT !.sn = Append(@, [n |-> L(t).cur, st |-> L(t).cs]),
                                         !.pc = IF nd[L(t).cur].leaf THEN "leaf" ELSE "child"])
              /\ Read
\* no root: nothing is there
Nothing(t) == /\ L(t).pc = "nothing"
              /\ IF L(t).pess THEN nd' = Rel(nd, Mine(t)) /\ Go(t, Finish(t, Absent))
                 ELSE UNCHANGED nd /\ Go(t, IF Stale(Found1(t)) THEN Restart(t) ELSE Finish(t, Absent))
              /\ Keep

\* ---- readers
Reader(t) == L(t).op \in {"sea", "scan"}
AtLeaf(t) ==
  /\ L(t).pc = "leaf"
  /\ IF Reader(t)
     THEN nd' = Rel(nd, Mine(t)) /\ Go(t, [L(t) EXCEPT !.pc = "read"])
     ELSE IF L(t).pess THEN UNCHANGED nd /\ Go(t, [L(t) EXCEPT !.pc = "apply"])
     ELSE /\ Free(LeafOf(t))
          /\ IF LeafCheck /\ Stale(Found1(t)) THEN UNCHANGED nd /\ Go(t, IF L(t).op = "del" THEN [L(t) EXCEPT !.pc = "merge?", !.again = TRUE] ELSE Restart(t))
             ELSE nd' = Held(nd, t, LeafOf(t)) /\ Go(t, [L(t) EXCEPT !.pc = "apply"])
  /\ Keep
LeafRead(t) ==
  /\ L(t).pc = "read"
  /\ LET x == nd[LeafOf(t)] IN
     \E torn \in (IF x.lk THEN BOOLEAN ELSE {FALSE}) :
       LET e == IF torn THEN NoE ELSE x.e IN
       Go(t, [L(t) EXCEPT !.pc = "read2", !.res = e[L(t).k],
                          !.rd = IF L(t).op = "scan" THEN SelectSeq([i \in 1..NKeys |-> i-1], LAMBDA k : e[k] # Absent /\ k >= L(t).k) ELSE <<>>])
  /\ Read
LeafRead2(t) ==
  /\ L(t).pc = "read2"
  /\ Go(t, IF SearchCheck /\ Stale(Found1(t)) THEN Restart(t)
           ELSE IF L(t).op = "sea" THEN Finish(t, L(t).res)
           ELSE LET l == [L(t) EXCEPT !.got = @ \o L(t).rd] IN
                IF nd[LeafOf(t)].hi = Top THEN [Finish(t, 0) EXCEPT !.got = l.got]
                ELSE [Restart(t) EXCEPT !.k = nd[LeafOf(t)].hi, !.got = l.got])
  /\ Read

\* ---- writers, holding the leaf's mutex
Apply(t) ==
  /\ L(t).pc = "apply"
  /\ LET n == LeafOf(t) x == nd[n] k == L(t).k here == x.e[k] # Absent
         room == Used(x) < Cap
         done(res) == nd' = Rel(nd, Mine(t)) /\ Go(t, Finish(t, res))
         put(y, res) == UNCHANGED nd /\ Go(t, Write(t, [L(t) EXCEPT !.res = res], n, y, "wrote"))
         full == nd' = Rel(nd, Mine(t)) /\ Go(t, [L(t) EXCEPT !.pc = "full", !.ix = Len(L(t).sn)])
     IN CASE L(t).op = "ins" -> IF here THEN done(0) ELSE IF room THEN put([x EXCEPT !.e[k] = L(t).v], 1) ELSE full
          [] L(t).op = "ups" /\ ~here -> IF room THEN put([x EXCEPT !.e[k] = L(t).v], Absent) ELSE full
          [] L(t).op \in {"upd", "del"} /\ ~here ->
                IF L(t).op = "upd" THEN done(Absent)
                ELSE nd' = Rel(nd, Mine(t)) /\ Go(t, [L(t) EXCEPT !.pc = "merge?", !.res = Absent])
          [] L(t).op \in {"ups", "upd"} /\ here -> IF room THEN put([x EXCEPT !.e[k] = L(t).v, !.dead = @ + 1], x.e[k]) ELSE full
          [] L(t).op = "del" /\ here -> put([x EXCEPT !.e[k] = Absent, !.dead = @ + 1], x.e[k])
  /\ Keep
Wrote(t) ==
  /\ L(t).pc = "wrote"
  /\ nd' = Rel(nd, Mine(t))
  /\ Go(t, IF L(t).op = "del" THEN [L(t) EXCEPT !.pc = "merge?", !.sn[Len(L(t).sn)].st = St(LeafOf(t))]
           ELSE Finish(t, L(t).res))
  /\ Keep

\* ---- overflow: trim or split the node at position ix of the path (the leaf
\* first), and one level up again when the parent has no room for the new child
At(t) == L(t).sn[L(t).ix].n
Up(t) == L(t).sn[L(t).ix - 1]
Full(t) ==
  /\ L(t).pc = "full" /\ Free(Up(t).n)
  /\ IF ParentCheck /\ Stale(Up(t)) THEN UNCHANGED nd /\ Go(t, Restart(t))
     ELSE nd' = Held(nd, t, Up(t).n) /\ Go(t, [L(t) EXCEPT !.pc = "build"])
  /\ Keep
Half(x) == LET ks == SelectSeq([i \in 1..NKeys |-> i-1], LAMBDA k : x.e[k] # Absent) IN ks[Len(ks) \div 2 + 1]
\* what replaces node x: one or two nodes and the key the second starts at
Halves(x) ==
  IF x.leaf
  THEN IF CanTrim(x) THEN [a |-> Leaf(x.e, 0, x.hi), b |-> Node0, m |-> 0]
       ELSE LET m == Half(x) IN [a |-> Leaf([k \in K |-> IF k < m THEN x.e[k] ELSE Absent], 0, m),
                                 b |-> Leaf([k \in K |-> IF k < m THEN Absent ELSE x.e[k]], 0, x.hi), m |-> m]
  ELSE LET h == Len(x.ch) \div 2 IN [a |-> Inner(SubSeq(x.ch, 1, h)), b |-> Inner(SubSeq(x.ch, h+1, Len(x.ch))), m |-> x.ch[h+1].sep]
BuildNew(t) ==
  /\ L(t).pc = "build" /\ Free(At(t))
  /\ IF Stale(L(t).sn[L(t).ix]) THEN nd' = Rel(nd, Mine(t)) /\ Go(t, Restart(t))
     ELSE UNCHANGED nd /\ Go(t, [L(t) EXCEPT !.pc = "swap", !.new = Append(@, Halves(nd[At(t)])), !.jx = L(t).ix])
  /\ Keep
Replace(ch, n, a, m, b) ==  \* child n by a, and if m # 0 by a and, from m on, b
  IF \A i \in DOMAIN ch : ch[i].n # n THEN ch    \* only without the checks
  ELSE LET i == IxOf(ch, n) IN SubSeq(ch, 1, i-1) \o <<[ch[i] EXCEPT !.n = a]>>
       \o (IF m = 0 THEN <<>> ELSE <<[sep |-> m, n |-> b]>>) \o SubSeq(ch, i+1, Len(ch))
\* lock and check what is replaced, from position ix down to the leaf
Swap(t) ==
  /\ L(t).pc = "swap" /\ Free(L(t).sn[L(t).jx].n)
  /\ IF SplitCheck /\ Stale(L(t).sn[L(t).jx]) THEN nd' = Rel(nd, Mine(t)) /\ Go(t, Restart(t))
     ELSE /\ nd' = Held(nd, t, L(t).sn[L(t).jx].n)
          /\ Go(t, [L(t) EXCEPT !.pc = IF L(t).jx = Len(L(t).sn) THEN "link" ELSE "swap", !.jx = @ + 1])
  /\ Keep
\* the nodes made for the levels below: the lower a[i], b[i] become NewId + 2(i-1), + 1
Ids(i) == <<NewId + 2*(i-1), NewId + 2*(i-1) + 1>>
Link(t) ==
  /\ L(t).pc = "link"
  /\ LET new == L(t).new d == Len(new) p == Up(t).n two == new[d].m # 0
         Below(x, i) == IF i = 1 THEN x ELSE [x EXCEPT !.ch = Replace(@, L(t).sn[Len(L(t).sn) - (i-2)].n, Ids(i-1)[1], new[i-1].m, Ids(i-1)[2])]
         fresh == [n \in {Ids(i)[j] : i \in 1..d, j \in 1..2} \ (IF two THEN {} ELSE {Ids(d)[2]}) |->
                     LET i == (n - NewId) \div 2 + 1 IN Below(IF n = Ids(i)[1] THEN new[i].a ELSE new[i].b, i)]
         top == (Ids(d)[2] + 1) :> Inner(<<[sep |-> 0, n |-> Ids(d)[1]], [sep |-> new[d].m, n |-> Ids(d)[2]]>>)
     IN IF p # 0 /\ two /\ Len(nd[p].ch) = ICap
        THEN nd' = Rel(nd, Mine(t)) /\ Go(t, [L(t) EXCEPT !.pc = "full", !.ix = @ - 1])
        ELSE IF p = 0 /\ two
        THEN /\ nd' = nd @@ fresh @@ top
             /\ Go(t, Write(t, [L(t) EXCEPT !.new = <<>>], p, Inner(<<[sep |-> 0, n |-> Ids(d)[2] + 1]>>), "drop"))
        ELSE /\ nd' = nd @@ fresh
             /\ Go(t, Write(t, [L(t) EXCEPT !.new = <<>>], p, Inner(Replace(nd[p].ch, At(t), Ids(d)[1], new[d].m, Ids(d)[2])), "drop"))
  /\ Keep
Dead(x, n) == IF MarkDeleted THEN [x EXCEPT ![n].del = TRUE, ![n].ver = @ + 1] ELSE x
DropOld(t) ==
  /\ L(t).pc = "drop"
  /\ nd' = Dead(nd, At(t))
  /\ Go(t, [L(t) EXCEPT !.pc = IF L(t).ix = Len(L(t).sn) THEN "dropped" ELSE "drop", !.ix = @ + 1]) /\ Keep
Dropped(t) ==
  /\ L(t).pc = "dropped"
  /\ nd' = Rel(nd, Mine(t))
  /\ Go(t, Restart(t)) /\ Keep

\* ---- underflow: merge the node at position ix with a neighbour, then its parent
Ended(t, l) == IF l.again THEN Restart(t) ELSE Finish(t, l.res)
MergeQ(t) ==
  /\ L(t).pc = "merge?"
  /\ LET x == nd[LeafOf(t)] IN
     \E u \in (IF x.lk THEN BOOLEAN ELSE {Under(x)}) :
       Go(t, IF u /\ Len(L(t).sn) > 2 THEN [L(t) EXCEPT !.pc = "merge", !.ix = Len(L(t).sn)] ELSE Ended(t, L(t)))
  /\ Read
\* after the node at ix, its parent, when that is underfull and not the root
Higher(t, l, par) == IF Len(par.ch) <= IMerge /\ l.ix > 3 THEN [l EXCEPT !.pc = "merge", !.ix = @ - 1, !.new = <<>>] ELSE Ended(t, l)
MergeP(t) ==
  /\ L(t).pc = "merge" /\ Free(Up(t).n)
  /\ LET p == nd[Up(t).n] IN
     IF ParentCheck /\ Stale(Up(t)) THEN UNCHANGED nd /\ Go(t, Ended(t, L(t)))
     ELSE IF Len(p.ch) < 2 THEN UNCHANGED nd /\ Go(t, Higher(t, L(t), p))
     ELSE LET i == ChildIx(p.ch, L(t).k) IN
          /\ nd' = Held(nd, t, Up(t).n)
          /\ Go(t, [L(t) EXCEPT !.pc = "left", !.r = IF i = 1 THEN 1 ELSE i - 1])
  /\ Keep
Lt(t) == nd[Up(t).n].ch[L(t).r].n
Rt(t) == nd[Up(t).n].ch[L(t).r + 1].n
MergeL(t) == /\ L(t).pc = "left" /\ Free(Lt(t))
             /\ nd' = Held(nd, t, Lt(t))
             /\ Go(t, [L(t) EXCEPT !.pc = "right"]) /\ Keep
Fits(a, b) == IF a.leaf THEN Cardinality(Live1(a)) + Cardinality(Live1(b)) <= Cap ELSE Len(a.ch) + Len(b.ch) <= ICap
Joined(a, b) == IF a.leaf THEN Leaf([k \in K |-> IF a.e[k] # Absent THEN a.e[k] ELSE b.e[k]], 0, b.hi) ELSE Inner(a.ch \o b.ch)
MergeR(t) ==
  /\ L(t).pc = "right" /\ Free(Rt(t))
  /\ LET a == nd[Lt(t)] b == nd[Rt(t)] p == nd[Up(t).n] r == L(t).r IN
     IF Stale(L(t).sn[L(t).ix]) THEN nd' = Rel(nd, Mine(t)) /\ Go(t, Ended(t, L(t)))
     ELSE IF ~Fits(a, b) THEN nd' = Rel(nd, Mine(t)) /\ Go(t, Higher(t, L(t), p))
     ELSE /\ nd' = Held(nd, t, Rt(t)) @@ (NewId :> Joined(a, b))
          /\ Go(t, Write(t, [L(t) EXCEPT !.new = <<Lt(t), Rt(t)>>], Up(t).n,
                   Inner(SubSeq(p.ch, 1, r-1) \o <<[p.ch[r] EXCEPT !.n = NewId]>> \o SubSeq(p.ch, r+2, Len(p.ch))), "mdrop"))
  /\ Keep
MDrop(t) ==
  /\ L(t).pc = "mdrop"
  /\ nd' = Dead(nd, L(t).new[1])
  /\ Go(t, [L(t) EXCEPT !.pc = "mdrop2"]) /\ Keep
MDrop2(t) ==
  /\ L(t).pc = "mdrop2"
  /\ nd' = Rel(Dead(nd, L(t).new[2]), Mine(t))
  /\ Go(t, Higher(t, [L(t) EXCEPT !.sn[L(t).ix - 1].st = St(Up(t).n)], nd[Up(t).n])) /\ Keep

Step(t) == \/ Ensure(t) \/ MkRoot(t) \/ MkDone(t) \/ Root(t) \/ Child(t) \/ Recheck(t) \/ Enter(t)
           \/ Entered(t) \/ Nothing(t) \/ AtLeaf(t) \/ LeafRead(t) \/ LeafRead2(t) \/ Apply(t) \/ Wrote(t)
           \/ W1(t) \/ W2(t) \/ W3(t) \/ Full(t) \/ BuildNew(t) \/ Swap(t) \/ Link(t) \/ DropOld(t) \/ Dropped(t)
           \/ MergeQ(t) \/ MergeP(t) \/ MergeL(t) \/ MergeR(t) \/ MDrop(t) \/ MDrop2(t) \/ Return(t)
Next == \E t \in Th : Call(t) \/ Step(t)
Spec == Init /\ [][Next]_vars

Linearizable == S # {}
\* hand over hand one never gets to a node that is no longer in the tree
NeverLost == \A t \in Th : L(t).pc # "lost"
AllIdle == \A t \in Th : L(t).pc = "idle"
NoDeadlock == AllIdle \/ \E t \in Th : ENABLED Step(t)
\* with nothing running: the reachable leaves, in order, hold what the history says,
\* each within its bounds; nothing is locked, and what is not reachable is deleted
RECURSIVE Leaves(_)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Leaves(n) == IF nd[n].leaf THEN <<n>> ELSE Flat([i \in DOMAIN nd[n].ch |-> Leaves(nd[n].ch[i].n)])
RECURSIVE Reach(_)
Reach(X) == LET Y == X \cup UNION {{nd[n].ch[i].n : i \in DOMAIN nd[n].ch} : n \in X} IN IF X = Y THEN X ELSE Reach(Y)
Quiescent == AllIdle =>
  LET ls == Leaves(0)
      lo(i) == IF i = 1 THEN 0 ELSE nd[ls[i-1]].hi
  IN /\ [k \in K |-> LET P == {i \in DOMAIN ls : nd[ls[i]].e[k] # Absent}
                     IN IF P = {} THEN Absent ELSE nd[ls[CHOOSE i \in P : TRUE]].e[k]] \in LContents(S)
     /\ \A i \in DOMAIN ls : \A k \in Live1(nd[ls[i]]) : lo(i) <= k /\ k < nd[ls[i]].hi
     /\ ls # <<>> => nd[ls[Len(ls)]].hi = Top
     /\ \A n \in DOMAIN nd : Free(n) /\ ~nd[n].lk
     /\ \A n \in DOMAIN nd : nd[n].del <=> n \notin Reach({0})
     /\ \A n \in DOMAIN nd : ~nd[n].leaf => Len(nd[n].ch) <= ICap
     /\ \A n \in DOMAIN nd : nd[n].leaf => Used(nd[n]) <= Cap + 1
=============================================================================
