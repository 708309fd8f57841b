----------------------------- MODULE OrderedMap -----------------------------
(***************************************************************************)
(* The abstract ordered dictionary every ordered index of InMemIndexes is  *)
(* meant to be, together with the positions (iterators, bounds) one can    *)
(* hold in it.                                                             *)
(*                                                                         *)
(* Keys are 0..N-1; m[k] is the value held for k, or Absent.               *)
(* Search probes live on a doubled scale so that a probe may also fall     *)
(* strictly between two keys (partial compound keys, keys of another       *)
(* type): probe 2k+1 is key k itself, probe 2k lies between k-1 and k.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Absent  == -1
Default == 0          \* what operator[] creates: a value-initialised value
End     == -1         \* the position past the last / before the first key

EmptyMap(N)  == [k \in 0..(N-1) |-> Absent]
Present(m,k) == m[k] # Absent
Live(m)      == {k \in DOMAIN m : m[k] # Absent}
Size(m)      == Cardinality(Live(m))
Put(m,k,v)   == [m EXCEPT ![k] = v]
Drop(m,k)    == [m EXCEPT ![k] = Absent]

(* what operator[] reads, and the map after it *)
SubscriptVal(m,k) == IF Present(m,k) THEN m[k] ELSE Default
SubscriptMap(m,k) == IF Present(m,k) THEN m ELSE Put(m,k,Default)

(* First live key >= k, or End; last live key <= k, or End. *)
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
FirstFrom(m,k,N) == LET S == {j \in k..(N-1) : m[j] # Absent}
                    IN IF S = {} THEN End ELSE MinOf(S)
LastFrom(m,k)    == LET S == {j \in 0..k : m[j] # Absent}
                    IN IF S = {} THEN End ELSE MaxOf(S)

(* probe p: keys k with 2k+1 >= p are not less than p *)
LowerBound(m,p,N) == FirstFrom(m, p \div 2, N)
UpperBound(m,p,N) == FirstFrom(m, (p+1) \div 2, N)

First(m,N) == FirstFrom(m,0,N)
Last(m,N)  == LastFrom(m,N-1)

(* Moving a position.  From End a forward cursor can only step back. *)
NextPos(m,c,N) == FirstFrom(m, c+1, N)
PrevPos(m,c,N) == IF c = End THEN Last(m,N) ELSE LastFrom(m, c-1)
\* the same for a reverse cursor: its End is before the first key
RNextPos(m,c,N) == LastFrom(m, c-1)
RPrevPos(m,c,N) == IF c = End THEN First(m,N) ELSE FirstFrom(m, c+1, N)

KeySeq(m,N) == SelectSeq([i \in 1..N |-> i-1], LAMBDA k : m[k] # Absent)
RevKeySeq(m,N) == SelectSeq([i \in 1..N |-> N-i], LAMBDA k : m[k] # Absent)
ValsOf(m,ks) == [i \in 1..Len(ks) |-> m[ks[i]]]

(* Keys within a range given by two bounds (probes), each inclusive or not. *)
InRange(k,lo,loIncl,hi,hiIncl) ==
    /\ IF loIncl THEN 2*k+1 >= lo ELSE 2*k+1 > lo
    /\ IF hiIncl THEN 2*k+1 <= hi ELSE 2*k+1 < hi
RangeSeq(m,N,lo,loIncl,hi,hiIncl) ==
    SelectSeq(KeySeq(m,N), LAMBDA k : InRange(k,lo,loIncl,hi,hiIncl))
RRangeSeq(m,N,lo,loIncl,hi,hiIncl) ==
    SelectSeq(RevKeySeq(m,N), LAMBDA k : InRange(k,lo,loIncl,hi,hiIncl))
=============================================================================
