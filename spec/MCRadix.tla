------------------------------- MODULE MCRadix -------------------------------
(* Key sets for Radix: where keys part, and how many children nodes have. *)
EXTENDS Radix
CONSTANTS U,      \* which set
          Wide    \* two more keys
P == <<9, 0, 255, 128, 7, 1, 2, 3>>
At(l, v) == [P EXCEPT ![l] = v]
At2(l, v, m, w) == [P EXCEPT ![l] = v, ![m] = w]
Base ==
  CASE U = 1 -> \* keys that part from one another at every depth
        <<P, At(8, 0), At(7, 200), At(5, 0), At(3, 1), At(1, 255), At2(3, 1, 8, 77), At2(1, 255, 6, 0), At(2, 5), At2(5, 0, 6, 9)>>
    [] U = 2 -> \* the first byte: a node of four grows, with deeper keys below
        <<At(1, 0), At(1, 1), At(1, 255), At(1, 128), At(1, 127), P, At(8, 4), At2(1, 128, 4, 0), At(1, 64), At2(1, 0, 8, 0)>>
    [] U = 3 -> \* the last byte: a node of four grows below a long prefix, which others part
        <<At(8, 0), At(8, 255), At(8, 128), At(8, 1), At(8, 7), P, At(7, 9), At2(2, 8, 8, 6), At(4, 0), At(8, 64)>>
    [] U = 4 -> \* thirteen, and 45, children throughout
        <<At(3, 100), At(3, 101), At(3, 200), At(3, 254), At2(3, 2, 7, 9), At(2, 1), At(1, 0), At(3, 99), At2(2, 1, 4, 4), At2(3, 2, 8, 9)>>
    [] OTHER -> \* two nodes of four, one below the other, and their leaves
        <<At(4, 0), At(4, 1), At2(4, 1, 6, 5), At2(4, 1, 6, 6), At2(4, 1, 6, 7), At2(4, 1, 6, 8), At(4, 2), P, At2(4, 1, 5, 0), At(4, 3)>>
MCKeys == IF Wide THEN Base ELSE SubSeq(Base, 1, 8)
CONSTANT NB
MCBallast == [j \in 1..NB |-> At(3, 2 * j)]
ASSUME \A j \in 1..Len(MCKeys) : PrintT(<<"KEY", j, MCKeys[j]>>)
ASSUME \A j \in 1..NB : PrintT(<<"KEY", Len(MCKeys) + j, MCBallast[j]>>)
MCCaps == <<4, 16, 48, 256>>
=============================================================================
