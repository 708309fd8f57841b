-------------------------------- MODULE Table --------------------------------
(***************************************************************************)
(* The benchmark database as its interface (ycsb/core/db.h) describes it:  *)
(* tables of records, a record being a value for each of F fields.         *)
(*                                                                         *)
(* Records are numbered q = NK*table + key, keys of a table in their       *)
(* order.  d[q] is the record, a sequence of F field values (-1: the field *)
(* was never written), or <<>> if there is none.                           *)
(*                                                                         *)
(* As in LinObs, a configuration is [d |-> contents, p |-> what each       *)
(* thread does]; an observer holds the set of all configurations possible. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

None == <<>>
OK == 0
NoData == 1
Conflict == 2

Overwrite(r, vals) == [f \in 1..Len(vals) |-> IF vals[f] = -1 THEN r[f] ELSE vals[f]]
Select(r, mask)    == [f \in 1..Len(mask) |-> IF mask[f] = 1 THEN r[f] ELSE -1]

\* the records of q's table from q on, in order, at most n
RECURSIVE ScanFrom(_,_,_,_)
ScanFrom(d, q, last, n) ==
  IF q > last \/ n = 0 THEN <<>>
  ELSE IF d[q] = None THEN ScanFrom(d, q+1, last, n)
  ELSE <<d[q]>> \o ScanFrom(d, q+1, last, n-1)

(* What a call may do: a set of <<contents afterwards, result>>.  The      *)
(* interface leaves open whether inserting over a record replaces it or    *)
(* fails, and whether updating a missing record creates it or fails.       *)
Outcomes(d, op, q, a, NK) ==
  CASE op = "ins" -> IF d[q] = None THEN {<<[d EXCEPT ![q] = a], <<OK>>>>}
                     ELSE {<<[d EXCEPT ![q] = a], <<OK>>>>, <<d, <<Conflict>>>>}
    [] op = "upd" -> IF d[q] = None THEN {<<[d EXCEPT ![q] = a], <<OK>>>>, <<d, <<NoData>>>>}
                     ELSE {<<[d EXCEPT ![q] = Overwrite(d[q], a)], <<OK>>>>}
    [] op = "rd"  -> IF d[q] = None THEN {<<d, <<NoData>>>>} ELSE {<<d, <<OK, Select(d[q], a)>>>>}
    [] op = "del" -> IF d[q] = None THEN {<<d, <<NoData>>>>} ELSE {<<[d EXCEPT ![q] = None], <<OK>>>>}
    [] op = "scan"-> LET rs == ScanFrom(d, q, NK * (q \div NK) + NK - 1, a[1])
                     IN {<<d, <<OK, [j \in 1..Len(rs) |-> Select(rs[j], a[2])]>>>>}

Idle == <<"idle">>
Steps(c, NK) ==
  UNION {{[d |-> o[1], p |-> [c.p EXCEPT ![th] = <<"done", o[2]>>]] : o \in Outcomes(c.d, c.p[th][2], c.p[th][3], c.p[th][4], NK)} :
         th \in {x \in DOMAIN c.p : c.p[x][1] = "pend"}}
RECURSIVE Close(_,_)
Close(X, NK) == LET Y == X \cup UNION {Steps(c, NK) : c \in X} IN IF Y = X THEN X ELSE Close(Y, NK)

TabInit(n, threads)         == {[d |-> [q \in 0..(n-1) |-> None], p |-> [x \in threads |-> Idle]]}
TabCall(X, th, op, q, a)    == {[c EXCEPT !.p[th] = <<"pend", op, q, a>>] : c \in X}
TabReturn(X, th, res, NK)   == {[c EXCEPT !.p[th] = Idle] : c \in {x \in Close(X, NK) : x.p[th] = <<"done", res>>}}
==============================================================================
