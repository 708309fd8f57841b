------------------------------ MODULE TraceEpoch ------------------------------
(***************************************************************************)
(* Conformance of recorded executions of the real EpochManager to what     *)
(* Epoch.tla guarantees, at the level of its interface:                    *)
(*   en,t / in,t   enter_epoch called / returned     ex,t / ou,t  exit     *)
(*   re,t,new,objs retire called (new epoch or not)  rr,t  returned        *)
(*   rc,t,obj,own  the reclaimer runs for obj; own: it is obj's reclaimer  *)
(*   dc,t / dr,t,n do_reclaim called / returned n    ac / ar  reclaim_all  *)
(*   fin           all threads have left and reclaim_all has been called   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Protect,    \* judge C08
          Account,    \* judge C09
          Faults

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, i, w
vars == <<t, i, w>>

TH == 0..Traces[t].th
Thr == Traces[t].thr
Ev == Traces[t].ev[i+1]
Pos == i + 1

(* w.nest[th]  nesting level           w.en[th]   position of the outermost enter, 0 if none
   w.prot[th]  objects retired since th entered its section
   w.wait[th]  objects th retired, not yet reclaimed
   w.seal[o]   position after which a new section cannot block o any more, 0: none yet
   w.call[th]  what th has under way   w.all      number of reclaim_all under way *)
NoCall == [k |-> "none", p |-> 0, new |-> FALSE, blk |-> {}, ov |-> FALSE, thr |-> FALSE, n |-> 0, objs |-> {}, own |-> {}]

TInit == /\ t \in 1..Len(Traces)
         /\ i = 0
         /\ LET TT == 0..Traces[t].th IN
            w = [nest |-> [x \in TT |-> 0], en |-> [x \in TT |-> 0],
                 prot |-> [x \in TT |-> {}], wait |-> [x \in TT |-> {}],
                 seal |-> <<>>, call |-> [x \in TT |-> NoCall], all |-> 0]

Range(s) == {s[x] : x \in 1..Len(s)}
Started == {w.en[x] : x \in {y \in TH : w.en[y] # 0}}
SealOf(o) == IF o \in DOMAIN w.seal THEN w.seal[o] ELSE 0
Sure(o, blk) == \A p \in blk : SealOf(o) # 0 /\ p > SealOf(o)
Waiting == UNION {w.wait[x] : x \in TH}
Begin(th, k, new, objs, own, trig) ==
  [k |-> k, p |-> Pos, new |-> new, blk |-> Started, ov |-> w.all > 0, thr |-> trig,
   n |-> Cardinality(w.wait[th] \cup own), objs |-> objs, own |-> own]
\* whatever is certainly reclaimable must be gone after a call that reclaims
Cleared(th) == w.call[th].ov \/ ~w.call[th].thr \/ \A o \in w.wait[th] : ~Sure(o, w.call[th].blk)

Good(e) ==
  CASE e[1] \in {"en","in","ex","ou","ac","ar","dc"} -> TRUE
    [] e[1] = "re" -> TRUE
    [] e[1] = "rc" -> /\ Protect => \A x \in TH : e[3] \notin w.prot[x]
                      /\ Account => e[4] = 1 /\ e[3] \in Waiting
    [] e[1] = "rr" -> Account => Cleared(e[2])
    [] e[1] = "dr" -> Account => /\ Cleared(e[2])
                                 /\ e[3] <= w.call[e[2]].n
                                 /\ ~w.call[e[2]].ov => e[3] = Cardinality(w.wait[e[2]])
    [] e[1] = "fin"-> Account => Waiting = {}
    [] OTHER -> e[1] \notin Faults

Stop(e) == e[1] \notin {"en","in","ex","ou","ac","ar","dc","re","rc","rr","dr","fin"}

NextW(e) ==
  LET th == e[2] IN
  CASE e[1] = "en" -> [w EXCEPT !.en[th] = IF w.nest[th] = 0 THEN Pos ELSE @,
                                !.call = [x \in TH |-> IF w.call[x].k # "none" /\ w.nest[th] = 0
                                                       THEN [w.call[x] EXCEPT !.blk = @ \cup {Pos}] ELSE w.call[x]]]
    [] e[1] = "in" -> [w EXCEPT !.nest[th] = @ + 1]
    [] e[1] = "ex" -> [w EXCEPT !.nest[th] = @ - 1,
                                !.prot[th] = IF w.nest[th] = 1 THEN {} ELSE @]
    [] e[1] = "ou" -> [w EXCEPT !.en[th] = IF w.nest[th] = 0 THEN 0 ELSE @]
    [] e[1] = "re" ->
         LET objs == Range(e[4])
             \* a new epoch begun by this call seals its own objects and those
             \* whose retirement has already returned
             busy == UNION {w.call[x].own : x \in TH}
             sealing == ({o \in DOMAIN w.seal : w.seal[o] = 0} \ busy) \cup objs
         IN [w EXCEPT !.prot = [x \in TH |-> IF w.nest[x] > 0 THEN w.prot[x] \cup objs ELSE w.prot[x]],
                      !.wait[th] = @ \cup objs,
                      !.seal = @ @@ [o \in objs |-> 0],
                      !.call[th] = Begin(th, "re", e[3] = 1, sealing, objs,
                                         Cardinality(w.wait[th] \cup objs) >= Thr)]
    [] e[1] = "rr" -> [w EXCEPT !.call[th] = NoCall,
                                !.seal = IF w.call[th].new
                                         THEN [o \in DOMAIN w.seal |-> IF w.seal[o] = 0 /\ o \in w.call[th].objs THEN Pos ELSE w.seal[o]]
                                         ELSE @]
    [] e[1] = "rc" -> [w EXCEPT !.wait = [x \in TH |-> w.wait[x] \ {e[3]}]]
    [] e[1] = "dc" -> [w EXCEPT !.call[th] = Begin(th, "dc", FALSE, {}, {}, TRUE)]
    [] e[1] = "dr" -> [w EXCEPT !.call[th] = NoCall]
    [] e[1] = "ac" -> [w EXCEPT !.all = @ + 1,
                                !.call = [x \in TH |-> [w.call[x] EXCEPT !.ov = TRUE]]]
    [] e[1] = "ar" -> [w EXCEPT !.all = @ - 1]
    [] OTHER -> w

TNext ==
  /\ i < Len(Traces[t].ev)
  /\ t' = t
  /\ LET e == Ev IN
     CASE ~Good(e) -> /\ PrintT(<<"REJECT", Traces[t].id, i + 1, ToString(e)>>)
                      /\ i' = Len(Traces[t].ev) + 1 /\ UNCHANGED w
       [] Stop(e)  -> /\ PrintT(<<"ACCEPT", Traces[t].id>>)
                      /\ i' = Len(Traces[t].ev) + 1 /\ UNCHANGED w
       [] OTHER    -> /\ w' = NextW(e) /\ i' = i + 1
                      /\ (i + 1 = Len(Traces[t].ev)) => PrintT(<<"ACCEPT", Traces[t].id>>)

TSpec == TInit /\ [][TNext]_vars
=============================================================================
