----------------------------- MODULE CompoundKey -----------------------------
(***************************************************************************)
(* The order of compound keys: sequences of fields, compared field by      *)
(* field, a proper prefix being less than what it is a prefix of.  Fields  *)
(* are represented by their rank in the order of their type.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS MaxLen, MaxRank
Less(a,b) ==
  \E n \in 0..Len(a) :
     /\ n <= Len(b)
     /\ \A j \in 1..n : a[j] = b[j]
     /\ IF n = Len(a) THEN n < Len(b) ELSE n < Len(b) /\ a[n+1] < b[n+1]

AllKeys == UNION {[1..n -> 0..MaxRank] : n \in 1..MaxLen}

(* the laws of a strict total order, consistent with equality *)
Trichotomy == \A a, b \in AllKeys :
    Cardinality({r \in {"lt","eq","gt"} :
       CASE r = "lt" -> Less(a,b) [] r = "eq" -> a = b [] r = "gt" -> Less(b,a)}) = 1
Transitive == \A a, b \in AllKeys : Less(a,b) =>
                 \A c \in AllKeys : Less(b,c) => Less(a,c)
PrefixLess == \A a \in AllKeys : Len(a) > 1 => Less(SubSeq(a,1,Len(a)-1), a)

(* what each operator must answer *)
B(x) == IF x THEN 1 ELSE 0
Answers(a,b) == << B(Less(a,b)), B(Less(b,a)), B(~Less(b,a)), B(~Less(a,b)), B(a = b), B(a # b) >>

(* one transition per pair, so that every pair is visited and counted *)
VARIABLES x, y
Init == x \in AllKeys /\ y = <<0>>
Next == \E k \in AllKeys : y' = k /\ y # k /\ x' = x
Spec == Init /\ [][Next]_<<x,y>>
Exact == Answers(x,y)[3] = B(Less(x,y) \/ x = y) /\ Answers(x,y)[4] = B(Less(y,x) \/ x = y)
Laws == Trichotomy /\ Transitive /\ PrefixLess
ASSUME Laws
=============================================================================
