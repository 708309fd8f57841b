---------------------------- MODULE MCRadixLock ----------------------------
EXTENDS RadixLock
CONSTANT Which
KeySet == IF Which = "three" THEN <<<<0,0,0>>, <<0,0,1>>, <<0,1,0>>, <<1,0,0>>, <<0,0,2>>>>
          ELSE <<<<0,0>>, <<0,1>>, <<0,2>>, <<1,0>>, <<2,0>>>>
\* nothing, one leaf, a prefix node as root, nodes of both sizes, two levels, compacting
InitSet == CASE Which = "two"   -> {<<>>, <<0>>, <<0,1>>, <<0,3>>, <<0,1,2>>, <<0,1,3>>, <<0,3,4>>, <<0,1,2,3>>}
             [] Which = "three" -> {<<0,1>>, <<0,1,2>>, <<0,1,2,3>>, <<0,1,4,2>>}
             [] Which = "one"   -> {<<0,1,3>>}
=============================================================================
