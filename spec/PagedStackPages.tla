------------------------- MODULE PagedStackPages -------------------------
(***************************************************************************)
(* PagedStack as the code does it: a list of pages, the current one, and   *)
(* the loops that walk the pages. Checked to refine PagedStack: each       *)
(* operation, as implemented over pages, does what the abstract operation  *)
(* says, and synchronised iterators (page, index) mean abstract positions. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Geo,      \* <<page size, batch>>
          Iters, MaxSize, MaxVal, MaxArgs

VARIABLES pages,  \* sequence of pages, each a sequence of values
          cur,    \* the current page
          pend,   \* shrink request
          itr,    \* synchronised iterators: [on, pg, ix]; ix is 0 before the page's first element
          fresh

pvars == <<pages, cur, pend, itr, fresh>>

PSz == Geo[1]
Off == [on |-> FALSE, pg |-> 1, ix |-> 0]

RECURSIVE Concat(_, _)
Concat(p, n) == IF n = 0 THEN <<>> ELSE Concat(p, n - 1) \o p[n]

Flat == Concat(pages, cur)
Size == Len(Flat)
Users == Cardinality({i \in Iters : itr[i].on})

Init ==
  /\ pages = [k \in 1..Geo[2] |-> <<>>]
  /\ cur = 1 /\ pend = FALSE /\ fresh = 1
  /\ itr = [i \in Iters |-> Off]

\* --- helpers that work on a pair <<pages, cur>>
Grow(p) == p \o [k \in 1..Geo[2] |-> <<>>]
Advance(s) == IF Len(s[1][s[2]]) = PSz
              THEN IF s[2] = Len(s[1]) THEN <<Grow(s[1]), s[2] + 1>> ELSE <<s[1], s[2] + 1>>
              ELSE s
Push1(s, v) == LET t == Advance(s) IN <<[t[1] EXCEPT ![t[2]] = Append(@, v)], t[2]>>
RECURSIVE PushN(_, _, _)
PushN(s, v, n) == IF n = 0 THEN s ELSE PushN(Push1(s, v), v + 1, n - 1)
Pop1(s) == LET q == [s[1] EXCEPT ![s[2]] = SubSeq(@, 1, Len(@) - 1)]
           IN IF q[s[2]] = <<>> /\ s[2] # 1 THEN <<q, s[2] - 1>> ELSE <<q, s[2]>>
RECURSIVE PopN(_, _)
PopN(s, n) == IF n = 0 THEN s ELSE PopN(Pop1(s), n - 1)
\* discard(count)
RECURSIVE DiscardN(_, _)
DiscardN(s, n) ==
  LET len == Len(s[1][s[2]]) IN
  IF n >= len
  THEN LET q == [s[1] EXCEPT ![s[2]] = <<>>] IN
       IF s[2] = 1 THEN <<q, 1>> ELSE DiscardN(<<q, s[2] - 1>>, n - len)
  ELSE <<[s[1] EXCEPT ![s[2]] = SubSeq(@, 1, len - n)], s[2]>>
\* discard to <<page, offset from 0>>, as internal_discard
RECURSIVE DiscardTo(_, _, _)
DiscardTo(s, pg, off) ==
  IF s[2] # pg THEN DiscardTo(<<[s[1] EXCEPT ![s[2]] = <<>>], s[2] - 1>>, pg, off)
  ELSE IF off = 0 THEN <<[s[1] EXCEPT ![pg] = <<>>], IF pg # 1 THEN pg - 1 ELSE 1>>
  ELSE <<[s[1] EXCEPT ![pg] = SubSeq(@, 1, off)], pg>>
\* page and offset at a depth below the top, as internal_from_top
RECURSIVE FromTop(_, _)
FromTop(pg, d) == IF d > Len(pages[pg]) THEN FromTop(pg - 1, d - Len(pages[pg]))
                  ELSE <<pg, Len(pages[pg]) - d>>
RECURSIVE ClearAll(_)
ClearAll(s) == IF s[2] # 1 THEN ClearAll(<<[s[1] EXCEPT ![s[2]] = <<>>], s[2] - 1>>)
               ELSE <<[s[1] EXCEPT ![1] = <<>>], 1>>

S == <<pages, cur>>
Put(s) == pages' = s[1] /\ cur' = s[2]

\* --- operations
Push(n)     == /\ Size + n <= MaxSize /\ fresh + n <= MaxVal
               /\ Put(PushN(S, fresh, n)) /\ fresh' = fresh + n /\ UNCHANGED <<pend, itr>>
Pop(n)      == n <= Size /\ Put(PopN(S, n)) /\ UNCHANGED <<pend, itr, fresh>>
PopRev(n)   == n <= Size /\ LET w == FromTop(cur, n) IN Put(DiscardTo(S, w[1], w[2])) /\ UNCHANGED <<pend, itr, fresh>>
Discard(n)  == n <= Size /\ Put(DiscardN(S, n)) /\ UNCHANGED <<pend, itr, fresh>>
Clear       == Put(ClearAll(S)) /\ UNCHANGED <<pend, itr, fresh>>
SetTop      == /\ Size > 0 /\ fresh < MaxVal
               /\ pages' = [pages EXCEPT ![cur] = [@ EXCEPT ![Len(@)] = fresh]]
               /\ fresh' = fresh + 1 /\ UNCHANGED <<cur, pend, itr>>
Shrink      == IF Users > 0 THEN pend' = TRUE /\ UNCHANGED <<pages, cur, itr, fresh>>
               ELSE pages' = SubSeq(pages, 1, cur) /\ UNCHANGED <<cur, pend, itr, fresh>>

\* --- synchronised iterators
New(i, pg, ix) == ~itr[i].on /\ itr' = [itr EXCEPT ![i] = [on |-> TRUE, pg |-> pg, ix |-> ix]] /\ UNCHANGED <<pages, cur, pend, fresh>>
SBegin(i) == New(i, cur, Len(pages[cur]))
SEnd(i)   == New(i, 1, 0)
SCopy(i, j) == itr[i].on /\ New(j, itr[i].pg, itr[i].ix)
SDrop(i)  == /\ itr[i].on
             /\ itr' = [itr EXCEPT ![i] = Off]
             /\ IF Users = 1 /\ pend THEN pend' = FALSE /\ pages' = SubSeq(pages, 1, cur) ELSE UNCHANGED <<pend, pages>>
             /\ UNCHANGED <<cur, fresh>>
InSync(i) == IF itr[i].pg = cur THEN itr[i].ix <= Len(pages[cur]) ELSE itr[i].pg < cur
Usable(i) == itr[i].on /\ itr[i].ix > 0
Move(i, pg, ix) == itr' = [itr EXCEPT ![i].pg = pg, ![i].ix = ix] /\ UNCHANGED <<pages, cur, pend, fresh>>
Top(i)    == pages[cur] # <<>> /\ Move(i, cur, Len(pages[cur]))
SGet(i)   == Usable(i) /\ IF InSync(i) THEN UNCHANGED pvars ELSE Top(i)
SNext(i)  == Usable(i) /\ IF InSync(i)
               THEN IF itr[i].ix = 1 /\ itr[i].pg # 1 THEN Move(i, itr[i].pg - 1, Len(pages[itr[i].pg - 1]))
                    ELSE Move(i, itr[i].pg, itr[i].ix - 1)
               ELSE Top(i)
SPrev(i)  == Usable(i) /\ ~(itr[i].pg = cur /\ itr[i].ix = Len(pages[cur])) /\ IF InSync(i)
               THEN IF itr[i].ix = Len(pages[itr[i].pg]) THEN Move(i, itr[i].pg + 1, 1)
                    ELSE Move(i, itr[i].pg, itr[i].ix + 1)
               ELSE Top(i)

Next ==
  \/ \E n \in 1..MaxArgs : Push(n) \/ Pop(n) \/ PopRev(n)
  \/ \E n \in 0..MaxSize : Discard(n)
  \/ Clear \/ SetTop \/ Shrink
  \/ \E i \in Iters : SBegin(i) \/ SEnd(i) \/ SDrop(i) \/ SGet(i) \/ SNext(i) \/ SPrev(i) \/ \E j \in Iters : SCopy(i, j)

Spec == Init /\ [][Next]_pvars

\* --- what must hold of the pages
PagesOK ==
  /\ Len(pages) >= 1 /\ cur \in 1..Len(pages)
  /\ \A k \in 1..(cur - 1) : Len(pages[k]) = PSz
  /\ \A k \in (cur + 1)..Len(pages) : pages[k] = <<>>
  /\ Len(pages[cur]) <= PSz
  /\ cur > 1 => pages[cur] # <<>>
\* A live iterator stands on a page that is still there.
IterOK == \A i \in Iters : itr[i].on => itr[i].pg \in 1..Len(pages)

\* --- refinement
Abs == INSTANCE PagedStack WITH
  Stacks <- {1}, PIters <- {}, Geometries <- {Geo},
  geo <- <<Geo>>, alive <- <<TRUE>>, seq <- <<Flat>>, cap <- <<Len(pages)>>, shr <- <<pend>>,
  it <- [i \in Iters |-> IF itr[i].on THEN [own |-> 1, pos |-> (itr[i].pg - 1) * PSz + itr[i].ix - 1, k |-> FALSE]
                         ELSE [own |-> 0, pos |-> 0, k |-> FALSE]],
  pit <- <<>>, nextv <- fresh

AbsNext ==
  \/ \E n \in 1..MaxArgs : Abs!Push(1, n) \/ Abs!Pop(1, n)
  \/ \E n \in 0..MaxSize : Abs!Discard(1, n)
  \/ Abs!Clear(1) \/ Abs!SetTop(1) \/ Abs!Shrink(1)
  \/ \E i \in Iters : \/ Abs!SyncBegin(i, 1, FALSE) \/ Abs!SyncEnd(i, 1, FALSE) \/ Abs!SyncDrop(i)
                      \/ Abs!SyncGet(i) \/ Abs!SyncNext(i) \/ Abs!SyncPrev(i)
                      \/ \E j \in Iters : Abs!SyncCopy(i, j)
Refines == [][AbsNext]_(Abs!vars)
\* Stronger, one operation at a time.
RefPush   == [][\A n \in 1..MaxArgs : Push(n) => Abs!Push(1, n)]_pvars
RefPop    == [][\A n \in 1..MaxArgs : (Pop(n) => Abs!Pop(1, n)) /\ (PopRev(n) => Abs!Remove(1, n))]_pvars
RefDisc   == [][(\A n \in 0..MaxSize : Discard(n) => Abs!Discard(1, n)) /\ (Clear => Abs!Clear(1))]_pvars
RefShrink == [][Shrink => Abs!Shrink(1)]_pvars
RefIter   == [][\A i \in Iters : /\ SBegin(i) => Abs!SyncBegin(i, 1, FALSE)
                                 /\ SEnd(i) => Abs!SyncEnd(i, 1, FALSE)
                                 /\ SDrop(i) => Abs!SyncDrop(i)
                                 /\ SNext(i) => Abs!SyncNext(i)
                                 /\ SPrev(i) => Abs!SyncPrev(i)
                                 /\ SGet(i) => Abs!SyncGet(i)]_pvars
\* Exploration is on shapes: the values do not matter for what can happen next.
Shape == <<[k \in DOMAIN pages |-> Len(pages[k])], cur, pend, itr>>
=============================================================================
