------------------------------ MODULE TraceTree ------------------------------
(***************************************************************************)
(* Conformance of the shape of the real tree, as it reports it itself, to  *)
(* what a B+tree must look like, and of the memory it holds to its content.*)
(* A tree is reported level by level, root first, each node as its keys.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, i, live
vars == <<t, i, live>>

H == Traces[t]                     \* n: number of keys
TInit == t \in 1..Len(Traces) /\ i = 0 /\ live = {}

NegInf == -1
PosInf == 1000000000
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

\* the nodes of a level with the key ranges their ancestors leave them
Bound(nodes, ranges) == [j \in 1..Len(nodes) |-> [ks |-> nodes[j], lo |-> ranges[j][1], hi |-> ranges[j][2]]]
RECURSIVE Cat(_)
Cat(ss) == IF Len(ss) = 0 THEN <<>>
           ELSE IF Len(ss) = 1 THEN ss[1]
           ELSE LET h == Len(ss) \div 2 IN Cat(SubSeq(ss,1,h)) \o Cat(SubSeq(ss,h+1,Len(ss)))
RangesBelow(bn) == Cat([j \in 1..Len(bn) |->
    LET b == bn[j] k == Len(b.ks) IN
    [c \in 1..(k+1) |-> << IF c = 1 THEN b.lo ELSE b.ks[c-1], IF c = k+1 THEN b.hi ELSE b.ks[c] >>]])
NodeOK(b) == /\ \A j \in 1..(Len(b.ks)-1) : b.ks[j] < b.ks[j+1]
             /\ \A j \in 1..Len(b.ks) : b.ks[j] >= b.lo /\ b.ks[j] < b.hi
RECURSIVE LevelsOK(_,_,_)
LevelsOK(lv, d, ranges) ==
  /\ Len(lv[d]) = Len(ranges)          \* every child of the level above, no more
  /\ LET bn == Bound(lv[d], ranges) IN
     /\ \A j \in 1..Len(bn) : NodeOK(bn[j])
     /\ d < Len(lv) => LevelsOK(lv, d+1, RangesBelow(bn))
TreeOK(lv) == Len(lv) >= 1 /\ Len(lv[1]) = 1 /\ LevelsOK(lv, 1, << <<NegInf, PosInf>> >>)
LeafKeys(lv) == Cat(lv[Len(lv)])
SetOf(s) == {s[j] : j \in 1..Len(s)}
NumLeaves(lv) == Len(lv[Len(lv)])
RECURSIVE CountFrom(_,_)
CountFrom(lv,d) == IF d > Len(lv) THEN 0 ELSE Len(lv[d]) + CountFrom(lv,d+1)
NumInner(lv) == CountFrom(lv,1) - NumLeaves(lv)

\* e = <<"tree", height, levels, stats, allocs, chunks, bytes over nodes>>
\*   stats  = <<leaf splits, inner splits, leaf merges, inner merges, leaf trims, inner trims>> or <<>>
\*   allocs = nodes ever allocated, or -1;   chunks = node buffers held, or -1
TreeAdmits(e) ==
  LET lv == e[3] st == e[4] h == e[2] IN
  /\ TreeOK(lv)
  /\ Len(lv) = h + 1
  /\ SetOf(LeafKeys(lv)) = live
  /\ Len(st) = 6 =>
       /\ NumLeaves(lv) = 1 + st[1] - st[3]
       /\ NumInner(lv) = h + st[2] - st[4]
       /\ e[5] >= 0 => e[5] = 1 + h + 2*(st[1]+st[2]) + st[3] + st[4] + st[5] + st[6]
  /\ e[6] >= 0 => e[6] = NumLeaves(lv) + NumInner(lv)
  /\ e[7] <= 8192                      \* nothing but nodes is held

\* equal work over and over: the nodes held must stop growing
CyclesAdmits(s) ==
  LET h == Len(s) \div 4
      a == MaxOf({s[j] : j \in 1..h})
      b == MaxOf({s[j] : j \in (h+1)..Len(s)})
  IN b <= 2*a + 8

Admits(e) ==
  CASE e[1] = "set" -> TRUE
    [] e[1] = "del" -> TRUE
    [] e[1] = "live" -> TRUE           \* what is there after a concurrent execution
    [] e[1] = "tree" -> TreeAdmits(e)
    [] e[1] = "cycles" -> CyclesAdmits(e[2])
    \* after erasing all but a few keys: nodes at the fullest, nodes left, and
    \* the most nodes the remaining height and content account for
    [] e[1] = "drained" -> e[3] <= e[2] \div 4 + 2*e[4] + 8
    \* insertions only: keys, keys a leaf takes, nodes, height.  A split leaves
    \* at least half of a full leaf's keys on either side and an inner node has
    \* two children at least.
    [] e[1] = "filled" -> e[4] <= 2 * (e[2] \div (e[3] \div 2)) + e[5] + 2
    [] e[1] = "end" -> e[2] = 0        \* bytes held after destruction
    [] OTHER -> FALSE
NextLive(e) ==
  CASE e[1] = "set" -> live \cup {e[2]}
    [] e[1] = "del" -> live \ {e[2]}
    [] e[1] = "live" -> SetOf(e[2])
    [] OTHER -> live
TNext ==
  /\ i < Len(H.ev)
  /\ t' = t
  /\ LET e == H.ev[i+1] IN
     IF Admits(e)
     THEN /\ live' = NextLive(e) /\ i' = i + 1
          /\ (i + 1 = Len(H.ev)) => PrintT(<<"ACCEPT", H.id>>)
     ELSE /\ PrintT(<<"REJECT", H.id, i + 1, IF e[1] \in {"crash","hang","cycles","drained","filled","end"} THEN ToString(e) ELSE e[1]>>)
          /\ i' = Len(H.ev) + 1 /\ UNCHANGED live
TSpec == TInit /\ [][TNext]_vars
=============================================================================
