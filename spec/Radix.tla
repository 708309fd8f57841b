-------------------------------- MODULE Radix --------------------------------
(***************************************************************************)
(* Design of the adaptive radix tree (include/indexes/art): path           *)
(* compression (a node stands for `len` bytes of its keys), leaves kept as  *)
(* high as their prefix is unique, four kinds of inner nodes that replace   *)
(* one another as children come and go, and nodes with one child giving way *)
(* to that child.  The tree is one nested value; one action per public call *)
(* that changes it.  Checked: the shape, that lookups by the algorithm find *)
(* exactly the content, refinement of OrderedMap, and that the shape is a   *)
(* function of the content: no history leaves a trace in it.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Keys,      \* sequence of the keys that come and go, each a sequence of bytes
          Ballast,   \* sequence of keys present throughout
          D,         \* bytes of a key
          Caps       \* most children of each kind of inner node

VARIABLE tree
vars == <<tree>>

\* a key of the node is known up to where the node ends
Nil == [kind |-> -1]
Leaf(key, len)             == [kind |-> 0, key |-> key, len |-> len]
Inner(kind, key, len, ch)  == [kind |-> kind, key |-> key, len |-> len, ch |-> ch]
IsLeaf(n) == n.kind = 0

Min(a,b) == IF a < b THEN a ELSE b
\* length of the longest common prefix
Lcp(a,b) == LET S == {j \in 1..Min(Len(a), Len(b)) : a[j] # b[j]}
            IN IF S = {} THEN Min(Len(a), Len(b)) ELSE (CHOOSE x \in S : \A y \in S : x <= y) - 1
Common(n, key, depth) == Min(Lcp(n.key, key) - depth, n.len)
Byte(key, depth) == key[depth + 1]
Prefix(key, n) == SubSeq(key, 1, n)
Count(n) == Cardinality(DOMAIN n.ch)

\* a node one child richer, or larger, or smaller, as its kind demands
Sized(n) == IF Count(n) > Caps[n.kind] THEN [n EXCEPT !.kind = @ + 1]
            ELSE IF n.kind > 1 /\ Count(n) = Caps[n.kind - 1] THEN [n EXCEPT !.kind = @ - 1]
            ELSE n
SetChild(n, b, c) == [n EXCEPT !.ch = [x \in DOMAIN @ \cup {b} |-> IF x = b THEN c ELSE @[x]]]
DropChild(n, b)   == [n EXCEPT !.ch = [x \in DOMAIN @ \ {b} |-> @[x]]]

\* n and a new leaf for key, below a new node for what they have in common
Part(n, key, depth) ==
  LET c == Common(n, key, depth) IN
  Inner(1, Prefix(key, depth + c), c,
        [b \in {Byte(n.key, depth + c), Byte(key, depth + c)} |->
           IF b = Byte(key, depth + c) THEN Leaf(key, D - depth - c) ELSE [n EXCEPT !.len = @ - c]])

RECURSIVE InsertIn(_,_,_)
InsertIn(n, key, depth) ==
  IF n = Nil THEN Leaf(key, D - depth)
  ELSE IF IsLeaf(n) \/ Common(n, key, depth) # n.len THEN Part(n, key, depth)
  ELSE LET d == depth + n.len
           b == Byte(key, d)
       IN IF b \in DOMAIN n.ch THEN SetChild(n, b, InsertIn(n.ch[b], key, d))
          ELSE Sized(SetChild(n, b, Leaf(key, D - d)))

RECURSIVE RemoveIn(_,_,_)
RemoveIn(n, key, depth) ==        \* key is present below n
  IF IsLeaf(n) THEN Nil
  ELSE LET d == depth + n.len
           b == Byte(key, d)
           c == RemoveIn(n.ch[b], key, d)
       IN IF c # Nil THEN SetChild(n, b, c)
          ELSE LET m == DropChild(n, b) IN
               IF Count(m) = 1
               THEN LET only == m.ch[CHOOSE x \in DOMAIN m.ch : TRUE] IN [only EXCEPT !.len = @ + n.len]
               ELSE Sized(m)

RECURSIVE Find(_,_,_)
Find(n, key, depth) ==
  IF n = Nil THEN FALSE
  ELSE IF IsLeaf(n) THEN n.key = key
  ELSE IF Common(n, key, depth) # n.len THEN FALSE
  ELSE LET d == depth + n.len
           b == Byte(key, d)
       IN b \in DOMAIN n.ch /\ Find(n.ch[b], key, d)

RECURSIVE Content(_)
Content(n) == IF n = Nil THEN {} ELSE IF IsLeaf(n) THEN {n.key}
              ELSE UNION {Content(n.ch[b]) : b \in DOMAIN n.ch}

RECURSIVE Load(_,_)
Load(t, s) == IF s = <<>> THEN t ELSE Load(InsertIn(t, s[1], 0), Tail(s))
Init == tree = Load(Nil, Ballast)
Insert(k) == Keys[k] \notin Content(tree) /\ tree' = InsertIn(tree, Keys[k], 0)
Delete(k) == Keys[k] \in Content(tree) /\ tree' = RemoveIn(tree, Keys[k], 0)
Next == \E k \in 1..Len(Keys) : Insert(k) \/ Delete(k)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
RECURSIVE NodeOK(_,_)
NodeOK(n, depth) ==
  IF IsLeaf(n) THEN Len(n.key) = D /\ n.len = D - depth
  ELSE /\ Len(n.key) >= depth + n.len /\ depth + n.len < D
       /\ Count(n) >= 2 /\ Count(n) <= Caps[n.kind]
       /\ n.kind > 1 => Count(n) > Caps[n.kind - 1]
       /\ \A b \in DOMAIN n.ch :
            /\ Prefix(n.ch[b].key, depth + n.len) = Prefix(n.key, depth + n.len)
            /\ Byte(n.ch[b].key, depth + n.len) = b
            /\ NodeOK(n.ch[b], depth + n.len)
Shape == tree # Nil => NodeOK(tree, 0)

Universe == {Keys[j] : j \in 1..Len(Keys)} \cup {Ballast[j] : j \in 1..Len(Ballast)}
Lookup == LET c == Content(tree) IN \A key \in Universe : Find(tree, key, 0) <=> key \in c

\* the shape a set of keys has: no history leaves a trace
RECURSIVE Canon(_,_)
Canon(S, depth) ==
  IF S = {} THEN Nil
  ELSE LET any == CHOOSE k \in S : TRUE IN
  IF Cardinality(S) = 1 THEN Leaf(any, D - depth)
  ELSE LET ls == {Lcp(any, k) : k \in S \ {any}}
           l  == CHOOSE x \in ls : \A y \in ls : x <= y
           bs == {Byte(k, l) : k \in S}
       IN Inner(CHOOSE j \in 1..Len(Caps) : Cardinality(bs) <= Caps[j] /\ (j = 1 \/ Cardinality(bs) > Caps[j-1]),
                Prefix(any, l), l - depth, [b \in bs |-> Canon({k \in S : Byte(k, l) = b}, l)])
RECURSIVE Norm(_,_)        \* prefixes cut to where nodes end
Norm(n, depth) == IF n = Nil \/ IsLeaf(n) THEN n
                  ELSE [n EXCEPT !.key = Prefix(@, depth + n.len),
                                 !.ch = [b \in DOMAIN @ |-> Norm(@[b], depth + n.len)]]
NoTrace == Norm(tree, 0) = Canon(Content(tree), 0)

OM == INSTANCE OrderedMap
AbsMap == LET c == Content(tree) IN [k \in 0..(Len(Keys)-1) |-> IF Keys[k+1] \in c THEN 0 ELSE -1]
RefinesStep == [][ LET a == AbsMap  b == AbsMap' IN \E k \in DOMAIN a :
     \/ b = OM!Put(a, k, 0) /\ ~OM!Present(a,k)
     \/ b = OM!Drop(a, k) /\ OM!Present(a,k) ]_vars
=============================================================================
