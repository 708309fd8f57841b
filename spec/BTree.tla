------------------------------- MODULE BTree --------------------------------
(***************************************************************************)
(* Design of the sequential B+tree (include/indexes/btree/map.h) at the    *)
(* level of nodes: fence keys, separators, slots, entries that are erased  *)
(* but still occupy space, and the overflow (trim or split) and underflow  *)
(* (merge with the left sibling) rules, with the byte accounting of the    *)
(* implementation.  The tree is one nested value; one action per public    *)
(* call.  Checked: the structural invariants and refinement of OrderedMap. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS K,     \* keys 0..K-1
          NS,    \* NODE_SIZE
          HDR,   \* bytes of a node header
          KVL,   \* bytes of a leaf entry
          KVI,   \* bytes of an inner entry
          PTR,   \* bytes of the first child of an inner node
          SLOT,  \* bytes of a slot
          THR    \* NODE_MERGE_THRESHOLD

Keys == 0..(K-1)
NegInf == -1
PosInf == K

VARIABLE tree
vars == <<tree>>

Leaf(lo,hi,ks)     == [h |-> 0, lo |-> lo, hi |-> hi, ks |-> ks, ch |-> <<>>, d |-> 0]
Inner(h,lo,hi,ks,ch) == [h |-> h, lo |-> lo, hi |-> hi, ks |-> ks, ch |-> ch, d |-> 0]
IsLeaf(n) == n.h = 0
Num(n)    == IF IsLeaf(n) THEN Len(n.ks) ELSE Len(n.ch)
KV(n)     == IF IsLeaf(n) THEN KVL ELSE KVI
Used(n)   == (IF IsLeaf(n) THEN 0 ELSE PTR) + KV(n) * (Len(n.ks) + n.d)
HaveSpace(n) == HDR + SLOT * (Num(n) + 1) <= NS - Used(n) - KV(n)
LogicalSize(n) == (IF IsLeaf(n) THEN 0 ELSE PTR + SLOT) + (KV(n) + SLOT) * Len(n.ks)
Underfull(n) == (LogicalSize(n) * 100) \div NS < THR
CanTrim(n)   == n.d > 1
CanMerge(a,b) == LogicalSize(a) + LogicalSize(b) + (IF IsLeaf(a) THEN 0 ELSE KVI) + HDR <= NS

InsertAt(s,p,x) == SubSeq(s,1,p-1) \o <<x>> \o SubSeq(s,p,Len(s))   \* x becomes element p
RemoveIdx(s,p)  == SubSeq(s,1,p-1) \o SubSeq(s,p+1,Len(s))

\* number of elements of ks that are < k
Below(ks,k) == Cardinality({j \in 1..Len(ks) : ks[j] < k})
\* child (1-based) an inner node sends key k to
ChildPos(n,k) == Cardinality({j \in 1..Len(n.ks) : n.ks[j] <= k}) + 1

LeafAdd(n,k) == [n EXCEPT !.ks = InsertAt(@, Below(@,k)+1, k)]
\* separator s with right child r, to the right of child p
InnerAdd(n,p,s,r) == [n EXCEPT !.ks = InsertAt(@, p, s), !.ch = InsertAt(@, p+1, r)]
Trim(n) == [n EXCEPT !.d = 0]

SplitLeaf(n) ==
  LET c == (Len(n.ks) + 1) \div 2 IN
  [l |-> Leaf(n.lo, n.ks[c+1], SubSeq(n.ks,1,c)),
   s |-> n.ks[c+1],
   r |-> Leaf(n.ks[c+1], n.hi, SubSeq(n.ks,c+1,Len(n.ks)))]
SplitInner(n) ==
  LET c == Len(n.ch) \div 2 IN      \* children kept on the left
  [l |-> Inner(n.h, n.lo, n.ks[c], SubSeq(n.ks,1,c-1), SubSeq(n.ch,1,c)),
   s |-> n.ks[c],
   r |-> Inner(n.h, n.ks[c], n.hi, SubSeq(n.ks,c+1,Len(n.ks)), SubSeq(n.ch,c+1,Len(n.ch)))]

One(n)  == [split |-> FALSE, n |-> n]
Two(sp) == [split |-> TRUE, l |-> sp.l, s |-> sp.s, r |-> sp.r]

AddToLeaf(n,k) ==
  IF HaveSpace(n) THEN One(LeafAdd(n,k))
  ELSE IF CanTrim(n) THEN One(LeafAdd(Trim(n),k))
  ELSE LET sp == SplitLeaf(n) IN
       IF k < sp.s THEN Two([sp EXCEPT !.l = LeafAdd(@,k)])
                   ELSE Two([sp EXCEPT !.r = LeafAdd(@,k)])
AddToInner(n,s,r) ==
  LET at(x) == Below(x.ks,s)+1 IN
  IF HaveSpace(n) THEN One(InnerAdd(n,at(n),s,r))
  ELSE IF CanTrim(n) THEN One(InnerAdd(Trim(n),at(n),s,r))
  ELSE LET sp == SplitInner(n) IN
       IF s < sp.s THEN Two([sp EXCEPT !.l = InnerAdd(@,at(@),s,r)])
                   ELSE Two([sp EXCEPT !.r = InnerAdd(@,at(@),s,r)])

RECURSIVE InsertIn(_,_)
InsertIn(n,k) ==
  IF IsLeaf(n) THEN AddToLeaf(n,k)
  ELSE LET p == ChildPos(n,k)
           c == InsertIn(n.ch[p],k)
       IN IF ~c.split THEN One([n EXCEPT !.ch[p] = c.n])
          ELSE AddToInner([n EXCEPT !.ch[p] = c.l], c.s, c.r)
InsertTree(t,k) ==
  LET c == InsertIn(t,k) IN
  IF ~c.split THEN c.n
  ELSE Inner(t.h+1, c.l.lo, c.r.hi, <<c.s>>, <<c.l, c.r>>)

MergeNodes(a,s,b) ==
  IF IsLeaf(a) THEN Leaf(a.lo, b.hi, a.ks \o b.ks)
  ELSE Inner(a.h, a.lo, b.hi, a.ks \o <<s>> \o b.ks, a.ch \o b.ch)

\* children p and p+1 of n merged into one; the separator between them goes
JoinAt(n,p) == [n EXCEPT !.ch = RemoveIdx([@ EXCEPT ![p] = MergeNodes(@, n.ks[p], n.ch[p+1])], p+1),
                         !.ks = RemoveIdx(@, p),
                         !.d  = @ + 1]
\* result: the node after the removal, and whether an entry was taken from it
RECURSIVE RemoveIn(_,_)
RemoveIn(n,k) ==
  IF IsLeaf(n)
  THEN [n |-> [n EXCEPT !.ks = RemoveIdx(@, Below(@,k)+1), !.d = @ + 1], took |-> TRUE]
  ELSE LET p == ChildPos(n,k)
           c == RemoveIn(n.ch[p],k)
           u == [n EXCEPT !.ch[p] = c.n]
       IN IF c.took /\ Underfull(c.n)
          THEN IF p > 1 /\ CanMerge(u.ch[p-1], c.n) THEN [n |-> JoinAt(u,p-1), took |-> TRUE]
               ELSE IF p < Len(u.ch) /\ CanMerge(c.n, u.ch[p+1]) THEN [n |-> JoinAt(u,p), took |-> TRUE]
               ELSE [n |-> u, took |-> FALSE]
          ELSE [n |-> u, took |-> FALSE]

RECURSIVE LeavesOf(_)
LeavesOf(n) == IF IsLeaf(n) THEN <<n>>
               ELSE LET RECURSIVE cat(_)
                        cat(j) == IF j > Len(n.ch) THEN <<>> ELSE LeavesOf(n.ch[j]) \o cat(j+1)
                    IN cat(1)
RECURSIVE KeysFrom(_,_)
KeysFrom(ls,j) == IF j > Len(ls) THEN <<>> ELSE ls[j].ks \o KeysFrom(ls,j+1)
KeysInOrder(t) == KeysFrom(LeavesOf(t),1)
Content(t) == LET s == KeysInOrder(t) IN {s[j] : j \in 1..Len(s)}

Init == tree = Leaf(NegInf, PosInf, <<>>)
Insert(k) == k \notin Content(tree) /\ tree' = InsertTree(tree,k)
Erase(k)  == k \in Content(tree) /\ tree' = RemoveIn(tree,k).n
Next == \E k \in Keys : Insert(k) \/ Erase(k)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Navigation, as the iterators do it: to the neighbouring leaf through the  *)
(* fence key, skipping leaves left empty.                                    *)
RECURSIVE LeafFor(_,_)
LeafFor(n,k) == IF IsLeaf(n) THEN n ELSE LeafFor(n.ch[ChildPos(n,k)],k)
RECURSIVE LeafLowerThan(_,_)       \* the leaf left of fence key k
LeafLowerThan(n,k) == IF IsLeaf(n) THEN n ELSE LeafLowerThan(n.ch[Below(n.ks,k)+1],k)
RECURSIVE FirstLeaf(_), LastLeaf(_)
FirstLeaf(n) == IF IsLeaf(n) THEN n ELSE FirstLeaf(n.ch[1])
LastLeaf(n)  == IF IsLeaf(n) THEN n ELSE LastLeaf(n.ch[Len(n.ch)])
RECURSIVE ForwardFrom(_,_), BackwardFrom(_,_)
ForwardFrom(t,l)  == l.ks \o (IF l.hi = PosInf THEN <<>> ELSE ForwardFrom(t, LeafFor(t,l.hi)))
BackwardFrom(t,l) == (IF l.lo = NegInf THEN <<>> ELSE BackwardFrom(t, LeafLowerThan(t,l.lo))) \o l.ks

-----------------------------------------------------------------------------
(* Properties of the design *)
RECURSIVE NodeOK(_)
NodeOK(n) ==
  /\ HDR + SLOT * Num(n) <= NS - Used(n)
  /\ \A j \in 1..(Len(n.ks)-1) : n.ks[j] < n.ks[j+1]
  /\ \A j \in 1..Len(n.ks) : n.ks[j] >= n.lo /\ n.ks[j] < n.hi
  /\ ~IsLeaf(n) =>
       /\ Len(n.ch) = Len(n.ks) + 1
       /\ \A j \in 1..Len(n.ch) :
            /\ n.ch[j].h = n.h - 1
            /\ n.ch[j].lo = (IF j = 1 THEN n.lo ELSE n.ks[j-1])
            /\ n.ch[j].hi = (IF j = Len(n.ch) THEN n.hi ELSE n.ks[j])
            /\ NodeOK(n.ch[j])
Structure == NodeOK(tree) /\ tree.lo = NegInf /\ tree.hi = PosInf
Sorted    == LET s == KeysInOrder(tree) IN \A j \in 1..(Len(s)-1) : s[j] < s[j+1]
Iteration == /\ ForwardFrom(tree, FirstLeaf(tree)) = KeysInOrder(tree)
             /\ BackwardFrom(tree, LastLeaf(tree)) = KeysInOrder(tree)
Lookup    == LET c == Content(tree) IN \A k \in Keys :
                LET ks == LeafFor(tree,k).ks IN k \in c <=> \E j \in 1..Len(ks) : ks[j] = k

RECURSIVE CountNodes(_)
CountNodes(n) == IF IsLeaf(n) THEN 1
                 ELSE LET RECURSIVE sum(_)
                          sum(j) == IF j > Len(n.ch) THEN 0 ELSE CountNodes(n.ch[j]) + sum(j+1)
                      IN 1 + sum(1)

(* Refinement: the tree implements the abstract ordered dictionary (presence *)
(* of keys; values ride along with their entry and play no role in layout).  *)
OM == INSTANCE OrderedMap
AbsMap == LET c == Content(tree) IN [k \in Keys |-> IF k \in c THEN 0 ELSE -1]
RefinesStep == [][ LET a == AbsMap  b == AbsMap' IN \E k \in Keys :
     \/ b = OM!Put(a, k, 0) /\ ~OM!Present(a,k)
     \/ b = OM!Drop(a, k) /\ OM!Present(a,k) ]_vars
=============================================================================
