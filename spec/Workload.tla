------------------------------- MODULE Workload -------------------------------
(***************************************************************************)
(* What a run of the benchmark may do, given its settings c: a load phase  *)
(* in which c.threads clients insert c.rc distinct records, and a run      *)
(* phase in which they perform c.ops operations on records inserted before *)
(* or, for inserts, never used before.                                     *)
(*                                                                         *)
(* The state is [phase, opened, closed, active, used, fresh, cnt, keycnt]: *)
(* clients opened and closed so far and those active; keys inserted; in    *)
(* the run phase, how often each operation and each key was used.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Key(n)      == "user" \o ToString(n)
Field(n)    == "field" \o ToString(n)
Fields(c)   == {Field(n) : n \in 0..(c.fc-1)}
Phase(c, s) == IF s.closed < c.threads THEN "load" ELSE "run"

Start == [opened |-> 0, closed |-> 0, active |-> {}, used |-> {}, last |-> "",
          cnt |-> <<0, 0, 0, 0>>,        \* reads, updates, inserts, scans
          newest |-> 0,                  \* uses of the key inserted last
          hits |-> <<>>]                 \* key :> uses

Bump(cnt, i) == [cnt EXCEPT ![i] = @ + 1]
Hit(h, k)    == IF k \in DOMAIN h THEN [h EXCEPT ![k] = @ + 1] ELSE h @@ (k :> 1)

Names(vals)  == {vals[j][1] : j \in 1..Len(vals)}
ValsOk(c, vals) == \A j \in 1..Len(vals) : vals[j][2] \in c.flmin..c.flmax
AllFields(c, vals) == Len(vals) = c.fc /\ Names(vals) = Fields(c)

\* e = <<op, client, table, key, ...>>
InsertOk(c, s, e) == /\ e[4] \notin s.used
                     /\ AllFields(c, e[5]) /\ ValsOk(c, e[5])
                     /\ Phase(c, s) = "run" => c.prop[3] > 0
\* which fields a read or scan asks for
AsksOk(c, all, names) == IF c.readall = 1 THEN all = 1
                         ELSE all = 0 /\ Len(names) = 1 /\ names[1] \in Fields(c)
ReadOk(c, s, e)   == /\ Phase(c, s) = "run" /\ e[4] \in s.used
                     /\ c.prop[1] + c.prop[5] > 0
                     /\ AsksOk(c, e[5], e[6]) /\ e[7] = c.fc
UpdateOk(c, s, e) == /\ Phase(c, s) = "run" /\ e[4] \in s.used
                     /\ c.prop[2] + c.prop[5] > 0
                     /\ ValsOk(c, e[5]) /\ e[6] = c.fc
                     /\ IF c.writeall = 1 THEN AllFields(c, e[5])
                        ELSE Len(e[5]) = 1 /\ Names(e[5]) \subseteq Fields(c)
ScanOk(c, s, e)   == /\ Phase(c, s) = "run" /\ e[4] \in s.used
                     /\ c.prop[4] > 0
                     /\ AsksOk(c, e[5], e[6]) /\ e[7] = c.fc
                     /\ e[8] \in 1..c.maxscan

(* At the end of a phase. *)
LoadedOk(c, s) == /\ Cardinality(s.used) = c.rc
                  /\ c.ordered = 1 => s.used = {Key(c.start + n) : n \in 0..(c.rc-1)}
Sum(p) == p[1] + p[2] + p[3] + p[4] + p[5]
Total(s) == s.cnt[1] + s.cnt[2] + s.cnt[3] + s.cnt[4]
\* a read-modify-write is a read and an update
CountOk(c, s) ==
  IF c.prop[5] = 0 THEN Total(s) = c.ops
  ELSE IF c.prop[2] = 0 THEN Total(s) - s.cnt[2] = c.ops /\ s.cnt[2] <= s.cnt[1]
  ELSE IF c.prop[1] = 0 THEN Total(s) - s.cnt[1] = c.ops /\ s.cnt[1] <= s.cnt[2]
  ELSE Total(s) >= c.ops /\ Total(s) - s.cnt[1] <= c.ops /\ Total(s) - s.cnt[2] <= c.ops
(* Shares: far (six standard deviations and more) from what was asked for  *)
(* is wrong.  In hundredths, as far as they are whole.                     *)
Far(cnt, n, pct) == LET d == 100 * cnt - n * pct IN d * d > 36 * n * pct * (100 - pct) + 90000
ShareOk(c, s) ==
  LET sum == Sum(c.prop) IN
  \A i \in 1..4 : LET p == c.prop[i] + (IF i \in {1,2} THEN c.prop[5] ELSE 0)
                      pct == (100 * p) \div sum
                  IN c.ops >= 100 => ~(Far(s.cnt[i], c.ops, pct) /\ Far(s.cnt[i], c.ops, pct + 1))
(* With enough uniformly distributed operations every loaded record is used; *)
(* the other distributions have favourites.                                  *)
Uses(s) == s.cnt[1] + s.cnt[2] + s.cnt[4]
Used(s, k) == IF k \in DOMAIN s.hits THEN s.hits[k] ELSE 0
SpreadOk(c, s) ==
  CASE c.dist = "uniform" -> (Uses(s) >= 90 * c.rc /\ c.prop[5] = 0) => Cardinality({k \in DOMAIN s.hits : Used(s,k) > 0}) >= c.rc
    [] c.dist = "zipfian" -> (Uses(s) >= 90 /\ c.rc >= 12 /\ c.prop[3] = 0) => \E k \in DOMAIN s.hits : Used(s,k) * c.rc >= 2 * Uses(s)
    [] OTHER -> (Uses(s) >= 90 /\ c.rc >= 12 /\ c.threads = 1) => s.newest * c.rc >= 2 * Uses(s)
RanOk(c, s) == /\ CountOk(c, s) /\ ShareOk(c, s) /\ SpreadOk(c, s)
               /\ Cardinality(s.used) = c.rc + s.cnt[3]
               /\ c.ordered = 1 => s.used = {Key(c.start + n) : n \in 0..(Cardinality(s.used)-1)}

Active(s, e) == e[2] \in s.active
Ok(c, s, e) ==
  CASE e[1] = "init"  -> e[2] \notin s.active /\ Cardinality(s.active) < c.threads
    [] e[1] = "close" -> /\ Active(s, e)
                         /\ s.closed + 1 = c.threads => LoadedOk(c, s)
                         /\ s.closed + 1 = 2 * c.threads => RanOk(c, s)
    [] e[1] = "exit"  -> s.closed = 2 * c.threads /\ s.active = {} /\ e[2] = 0
    [] e[1] \in {"ins", "rd", "upd", "scan"} ->
         /\ Active(s, e) /\ e[3] = c.table
         /\ CASE e[1] = "ins" -> InsertOk(c, s, e)
              [] e[1] = "rd"  -> ReadOk(c, s, e)
              [] e[1] = "upd" -> UpdateOk(c, s, e)
              [] OTHER        -> ScanOk(c, s, e)
    [] OTHER -> FALSE
Step(c, s, e) ==
  CASE e[1] = "init"  -> [s EXCEPT !.opened = @ + 1, !.active = @ \cup {e[2]}]
    [] e[1] = "close" -> [s EXCEPT !.closed = @ + 1, !.active = @ \ {e[2]}]
    [] e[1] = "ins"   -> [s EXCEPT !.used = @ \cup {e[4]}, !.last = e[4],
                                   !.cnt = IF Phase(c, s) = "run" THEN Bump(@, 3) ELSE @]
    [] e[1] \in {"rd","upd","scan"} ->
         [s EXCEPT !.cnt = Bump(@, CASE e[1] = "rd" -> 1 [] e[1] = "upd" -> 2 [] OTHER -> 4),
                   !.newest = IF e[4] = s.last THEN @ + 1 ELSE @,
                   !.hits = Hit(@, e[4])]
    [] OTHER -> s

(***************************************************************************)
(* Property files.  Lines and settings are sequences of character codes.   *)
(***************************************************************************)
Blank == {9, 10, 11, 12, 13, 32}
RECURSIVE TrimL(_), TrimR(_)
TrimL(x) == IF x # <<>> /\ x[1] \in Blank THEN TrimL(Tail(x)) ELSE x
TrimR(x) == IF x # <<>> /\ x[Len(x)] \in Blank THEN TrimR(SubSeq(x, 1, Len(x)-1)) ELSE x
Trim(x)  == TrimR(TrimL(x))
HasEq(l) == \E j \in 1..Len(l) : l[j] = 61
EqPos(l) == CHOOSE j \in 1..Len(l) : l[j] = 61 /\ \A h \in 1..(j-1) : l[h] # 61
Setting(l) == ~(l # <<>> /\ l[1] = 35) /\ HasEq(l)
SetProp(p, k, v) == {x \in p : x[1] # k} \cup {<<k, v>>}
RECURSIVE LoadLines(_,_)
LoadLines(p, ls) ==
  IF ls = <<>> THEN p
  ELSE LET l == Head(ls) IN
       LoadLines(IF Setting(l) THEN SetProp(p, Trim(SubSeq(l, 1, EqPos(l)-1)), Trim(SubSeq(l, EqPos(l)+1, Len(l)))) ELSE p, Tail(ls))
===============================================================================
