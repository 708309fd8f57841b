------------------------------ MODULE MCOptTree ------------------------------
EXTENDS OptTree
CONSTANT Which
Ent(X) == [k \in K |-> IF k \in X THEN k + 1 ELSE Absent]
RootOf(n) == [Node0 EXCEPT !.ch = <<[sep |-> 0, n |-> n]>>, !.ver = 1]
One(X, d) == <<RootOf(1), Leaf(Ent(X), d, Top)>>
Two(X, dx, m, Y, dy) == <<RootOf(1), Inner(<<[sep |-> 0, n |-> 2], [sep |-> m, n |-> 3]>>),
                          Leaf(Ent(X), dx, m), Leaf(Ent(Y), dy, Top)>>
Three(X, m, Y, n, Z) == <<RootOf(1), Inner(<<[sep |-> 0, n |-> 2], [sep |-> m, n |-> 3], [sep |-> n, n |-> 4]>>),
                          Leaf(Ent(X), 0, m), Leaf(Ent(Y), 0, n), Leaf(Ent(Z), 0, Top)>>
\* three levels; needs NKeys 6, Cap 2, ICap 2
Deep == <<RootOf(1), Inner(<<[sep |-> 0, n |-> 2], [sep |-> 3, n |-> 3]>>),
          Inner(<<[sep |-> 0, n |-> 4], [sep |-> 2, n |-> 5]>>), Inner(<<[sep |-> 3, n |-> 6]>>),
          Leaf(Ent({0,1}), 0, 2), Leaf(Ent({2}), 0, 3), Leaf(Ent({3,5}), 0, Top)>>
All == [deep |-> Deep,
        empty |-> <<Node0>>,
        full  |-> One({0,1,3}, 0),      \* the next insert splits
        dead  |-> One({0}, 2),          \* the next insert trims
        merge |-> Two({0}, 0, 2, {2,3}, 0),
        tight |-> Two({0,1}, 1, 2, {2,3}, 1),
        three |-> Three({0}, 1, {1}, 2, {2,3})]
Inits == {All[w] : w \in Which}
AnyKey(t) == K
=============================================================================
