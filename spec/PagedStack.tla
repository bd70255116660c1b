---------------------------- MODULE PagedStack ----------------------------
(***************************************************************************)
(* Abstract specification of falcon::PagedStack: a set of growable stacks  *)
(* whose elements live in pages of a fixed size, with the synchronised     *)
(* iterators that keep working while the stack changes.                    *)
(*                                                                         *)
(* One action per public operation (each of them is one critical section   *)
(* of the code). The operators named R_xxx give the reply an operation     *)
(* must return in the current state.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS
  Stacks,       \* names (1..n) of the stacks
  Iters,        \* names (1..m) of the synchronised iterators
  PIters,       \* names (1..k) of the plain iterators
  Geometries,   \* set of <<page size, pages allocated at a time>>
  MaxSize       \* bound for the exploration

VARIABLES
  geo,    \* geo[s] = <<page size, batch>>
  alive,  \* alive[s]: the stack exists
  seq,    \* seq[s]: contents, bottom first
  cap,    \* cap[s]: pages allocated; 0 if not known (after a failed growth, or a copy)
  shr,    \* shr[s]: a shrink is waiting for the last iterator to go away
  it,     \* it[i]: synchronised iterator, [own |-> stack or 0, pos |-> index from the bottom, k |-> const or not]
  pit,    \* pit[i]: plain iterator, [own |-> stack or 0, rev |-> reverse or not, k |-> const or not,
          \*          pos |-> index from the bottom; forward ones end at -1, reverse ones at the size]
  nextv   \* next fresh value

vars == <<geo, alive, seq, cap, shr, it, pit, nextv>>

---------------------------------------------------------------------------
\* Sequence helpers
TopVals(q, n)  == [k \in 1..n |-> q[Len(q) + 1 - k]]     \* top first
LastVals(q, n) == SubSeq(q, Len(q) - n + 1, Len(q))      \* bottom first
Fresh(n)       == [k \in 1..n |-> nextv + k - 1]
Drop(q, n)     == SubSeq(q, 1, Len(q) - n)
Reverse(q)     == [k \in 1..Len(q) |-> q[Len(q) + 1 - k]]

PS(s) == geo[s][1]
PA(s) == geo[s][2]
N(s)  == Len(seq[s])

CurPage(n, ps) == IF n = 0 THEN 1 ELSE (n + ps - 1) \div ps
CeilDiv(a, b)  == (a + b - 1) \div b

\* Pages allocated once the stack holds n elements, if it had c before.
Grown(s, c, n) ==
  IF c = 0 THEN 0
  ELSE IF n <= c * PS(s) THEN c
  ELSE c + PA(s) * CeilDiv(n - c * PS(s), PA(s) * PS(s))

IterCount(s) == Cardinality({i \in Iters : it[i].own = s})

---------------------------------------------------------------------------
TypeOK ==
  /\ \A s \in Stacks : geo[s] \in Geometries /\ alive[s] \in BOOLEAN /\ shr[s] \in BOOLEAN
  /\ \A s \in Stacks : cap[s] \in Nat
  /\ \A i \in Iters : it[i].own \in Stacks \cup {0} /\ it[i].pos \in -1..MaxSize
  /\ \A i \in PIters : pit[i].own # 0 => pit[i].pos \in (IF pit[i].rev THEN 0 ELSE -1)..(IF pit[i].rev THEN N(pit[i].own) ELSE N(pit[i].own) - 1)

\* There is always room for what is there, and at least one page.
CapOK == \A s \in Stacks : (alive[s] /\ cap[s] # 0) => cap[s] * PS(s) >= N(s) /\ cap[s] >= 1
\* A shrink only waits for someone.
ShrOK == \A s \in Stacks : shr[s] => IterCount(s) > 0
\* Nothing is stored twice, in one stack or another one that is not its copy.
DistinctOK == \A s \in Stacks : \A i, j \in 1..N(s) : seq[s][i] = seq[s][j] => i = j

---------------------------------------------------------------------------
NoIter  == [own |-> 0, pos |-> 0, k |-> FALSE]
NoPIter == [own |-> 0, rev |-> FALSE, k |-> FALSE, pos |-> 0]
\* Plain iterators are good until the stack changes its size or its pages.
Invalidate(s) == pit' = [i \in PIters |-> IF pit[i].own = s THEN NoPIter ELSE pit[i]]

InitWith(g) ==
  /\ geo = g
  /\ alive = [s \in Stacks |-> s = 1]
  /\ seq = [s \in Stacks |-> <<>>]
  /\ cap = [s \in Stacks |-> g[s][2]]
  /\ shr = [s \in Stacks |-> FALSE]
  /\ it = [i \in Iters |-> NoIter]
  /\ pit = [i \in PIters |-> NoPIter]
  /\ nextv = 1

Init == \E g \in [Stacks -> Geometries] : InitWith(g)

SetSeq(s, q) == seq' = [seq EXCEPT ![s] = q]

\* --- growing
PushVals(s, vs) ==
  /\ alive[s]
  /\ N(s) + Len(vs) <= MaxSize
  /\ SetSeq(s, seq[s] \o vs)
  /\ cap' = [cap EXCEPT ![s] = Grown(s, cap[s], N(s) + Len(vs))]
  /\ nextv' = nextv + Len(vs)
  /\ Invalidate(s)
  /\ UNCHANGED <<geo, alive, shr, it>>
Push(s, n) == PushVals(s, Fresh(n))     \* push(a, b, ...), push_emplace(...)

\* references to elements of the stack itself, at depths ds, may be given
PushOwn(s, ds) ==
  /\ alive[s] /\ N(s) + Len(ds) <= MaxSize
  /\ SetSeq(s, seq[s] \o [k \in DOMAIN ds |-> seq[s][N(s) + 1 - ds[k]]])
  /\ cap' = [cap EXCEPT ![s] = Grown(s, cap[s], N(s) + Len(ds))]
  /\ Invalidate(s)
  /\ UNCHANGED <<geo, alive, shr, it, nextv>>
TopOwn(s, d) ==
  /\ alive[s] /\ d \in 1..N(s)
  /\ SetSeq(s, [seq[s] EXCEPT ![N(s)] = seq[s][N(s) + 1 - d]])
  /\ UNCHANGED <<geo, alive, cap, shr, it, pit, nextv>>

\* --- shrinking
Remove(s, n) ==
  /\ alive[s] /\ n <= N(s)
  /\ SetSeq(s, Drop(seq[s], n))
  /\ Invalidate(s)
  /\ UNCHANGED <<geo, alive, cap, shr, it, nextv>>

R_Pop(s, n)        == TopVals(seq[s], n)
R_PopReverse(s, n) == LastVals(seq[s], n)

Pop(s, n)        == n >= 1 /\ Remove(s, n)     \* pop(), pop(a, b, ...), pop_reverse(a, b, ...)
Discard(s, n)    == Remove(s, n)               \* discard(n)
DiscardAt(s, d)  == d >= 1 /\ Remove(s, d)     \* discard(iterator at depth d from the top, 1 = top)
Clear(s)         == Remove(s, N(s))

\* --- top
R_Top(s) == seq[s][N(s)]
SetTop(s) ==
  /\ alive[s] /\ N(s) > 0
  /\ SetSeq(s, [seq[s] EXCEPT ![N(s)] = nextv])
  /\ nextv' = nextv + 1
  /\ UNCHANGED <<geo, alive, cap, shr, it, pit>>
\* writing through an iterator on the element at depth d
SetAt(s, d) ==
  /\ alive[s] /\ d \in 1..N(s)
  /\ SetSeq(s, [seq[s] EXCEPT ![N(s) + 1 - d] = nextv])
  /\ nextv' = nextv + 1
  /\ UNCHANGED <<geo, alive, cap, shr, it, pit>>

\* --- reading (no change)
R_Size(s)           == N(s)
R_Empty(s)          == N(s) = 0
R_Stats(s)          == <<cap[s], PS(s), CurPage(N(s), PS(s)),
                         IF N(s) = 0 THEN 0 ELSE N(s) - (CurPage(N(s), PS(s)) - 1) * PS(s)>>
R_Forward(s)        == Reverse(seq[s])
R_Reverse(s)        == seq[s]
R_FromTop(s, d)     == LastVals(seq[s], d)
R_Peek(s, n)        == TopVals(seq[s], n)
R_PeekDepth(s, d, n)== SubSeq(seq[s], N(s) - d + 1, N(s) - d + n)
R_PeekReverse(s, n) == LastVals(seq[s], n)
Read(s) == alive[s] /\ UNCHANGED vars

\* --- pages
Shrunk(s, q) == CurPage(Len(q), PS(s))
Shrink(s) ==
  /\ alive[s]
  /\ IF IterCount(s) > 0
     THEN shr' = [shr EXCEPT ![s] = TRUE] /\ UNCHANGED cap
     ELSE cap' = [cap EXCEPT ![s] = Shrunk(s, seq[s])] /\ UNCHANGED shr
  /\ Invalidate(s)
  /\ UNCHANGED <<geo, alive, seq, it, nextv>>

\* --- copies
CopyTo(s, t) ==   \* t constructed as a copy of s
  /\ alive[s] /\ ~alive[t]
  /\ alive' = [alive EXCEPT ![t] = TRUE]
  /\ geo' = [geo EXCEPT ![t] = geo[s]]
  /\ SetSeq(t, seq[s])
  /\ cap' = [cap EXCEPT ![t] = 0]
  /\ shr' = [shr EXCEPT ![t] = FALSE]
  /\ UNCHANGED <<it, pit, nextv>>
MoveTo(s, t) ==   \* t constructed from s, given up; s is then cleared
  /\ alive[s] /\ ~alive[t] /\ IterCount(s) = 0
  /\ alive' = [alive EXCEPT ![t] = TRUE]
  /\ geo' = [geo EXCEPT ![t] = geo[s]]
  /\ seq' = [seq EXCEPT ![t] = seq[s], ![s] = <<>>]
  /\ cap' = [cap EXCEPT ![t] = 0, ![s] = 0]
  /\ shr' = [shr EXCEPT ![t] = FALSE]
  /\ Invalidate(s)
  /\ UNCHANGED <<it, nextv>>
AssignTo(s, t) ==   \* t = s
  /\ alive[s] /\ alive[t]
  /\ SetSeq(t, seq[s])
  /\ cap' = [cap EXCEPT ![t] = IF s = t THEN cap[t] ELSE 0]
  /\ Invalidate(t)
  /\ UNCHANGED <<geo, alive, shr, it, nextv>>
Create(s, g) ==
  /\ ~alive[s]
  /\ alive' = [alive EXCEPT ![s] = TRUE]
  /\ geo' = [geo EXCEPT ![s] = g]
  /\ SetSeq(s, <<>>)
  /\ cap' = [cap EXCEPT ![s] = g[2]]
  /\ shr' = [shr EXCEPT ![s] = FALSE]
  /\ UNCHANGED <<it, pit, nextv>>
Destroy(s) ==
  /\ alive[s] /\ IterCount(s) = 0
  /\ alive' = [alive EXCEPT ![s] = FALSE]
  /\ SetSeq(s, <<>>)
  /\ Invalidate(s)
  /\ UNCHANGED <<geo, cap, shr, it, nextv>>

---------------------------------------------------------------------------
\* Synchronised iterators. The end position, below the bottom, is -1.
Release(i, i2) ==   \* effect on pages of iterator i going to i2 (a record)
  LET s == it[i].own IN
  IF s # 0 /\ i2.own # s /\ IterCount(s) = 1 /\ shr[s]
  THEN /\ shr' = [shr EXCEPT ![s] = FALSE]
       /\ cap' = [cap EXCEPT ![s] = Shrunk(s, seq[s])]
       /\ Invalidate(s)
  ELSE UNCHANGED <<shr, cap, pit>>

SetIter(i, r) ==
  /\ it' = [it EXCEPT ![i] = r]
  /\ Release(i, r)
  /\ UNCHANGED <<geo, alive, seq, nextv>>

SyncBegin(i, s, k) == alive[s] /\ it[i].own = 0 /\ SetIter(i, [own |-> s, pos |-> N(s) - 1, k |-> k])
SyncEnd(i, s, k)   == alive[s] /\ it[i].own = 0 /\ SetIter(i, [own |-> s, pos |-> -1, k |-> k])
SyncCopy(i, j)     == it[i].own # 0 /\ it[j].own = 0 /\ SetIter(j, it[i])
SyncAssign(i, j)   == it[i].own # 0 /\ it[j].own # 0 /\ it[i].k = it[j].k /\ SetIter(j, it[i])
SyncDrop(i)        == it[i].own # 0 /\ SetIter(i, NoIter)

\* Position after synchronising with the owner: where it is if that still exists, else the top.
Synced(i) == it[i].pos < N(it[i].own)
SyncPos(i) == IF Synced(i) THEN it[i].pos ELSE N(it[i].own) - 1
\* An operation that synchronises fails on an empty stack, and changes nothing visible.
SyncFails(i) == N(it[i].own) = 0

R_SyncGet(i) == seq[it[i].own][SyncPos(i) + 1]
SyncMoveTo(i, p) ==
  /\ it' = [it EXCEPT ![i].pos = p]
  /\ UNCHANGED <<geo, alive, seq, cap, shr, pit, nextv>>
\* All of these need an iterator standing on an element, or where an element once was.
SyncUsable(i) == it[i].own # 0 /\ it[i].pos >= 0
SyncGet(i)  == SyncUsable(i) /\ ~SyncFails(i) /\ SyncMoveTo(i, SyncPos(i))
SyncNext(i) == SyncUsable(i) /\ ~SyncFails(i) /\ SyncMoveTo(i, IF Synced(i) THEN it[i].pos - 1 ELSE SyncPos(i))
SyncPrev(i) == SyncUsable(i) /\ ~SyncFails(i) /\ it[i].pos # N(it[i].own) - 1   \* not from the top
               /\ SyncMoveTo(i, IF Synced(i) THEN it[i].pos + 1 ELSE SyncPos(i))
SyncFail(i) == SyncUsable(i) /\ SyncFails(i) /\ UNCHANGED vars
R_SyncEq(i, j) == it[i].own = it[j].own /\ it[i].pos = it[j].pos

---------------------------------------------------------------------------
\* Plain iterators: forward ones go from the top to the bottom, reverse ones back.
PEnd(i)   == IF pit[i].rev THEN N(pit[i].own) ELSE -1
PFirst(s, rev) == IF rev THEN 0 ELSE N(s) - 1
PLast(s, rev)  == IF rev THEN N(s) ELSE -1
\* position after n steps forward (or back, for n < 0)
PStep(i, n) == IF pit[i].rev THEN pit[i].pos + n ELSE pit[i].pos - n
POk(i, p) == IF pit[i].rev THEN p \in 0..N(pit[i].own) ELSE p \in -1..(N(pit[i].own) - 1)
SetPIter(i, r) == pit' = [pit EXCEPT ![i] = r] /\ UNCHANGED <<geo, alive, seq, cap, shr, it, nextv>>

PNew(i, s, rev, k, pos) == alive[s] /\ SetPIter(i, [own |-> s, rev |-> rev, k |-> k, pos |-> pos])
PBegin(i, s, rev, k)    == PNew(i, s, rev, k, PFirst(s, rev))
PFin(i, s, rev, k)      == PNew(i, s, rev, k, PLast(s, rev))
PFromTop(i, s, k, d)    == d \in 0..N(s) /\ PNew(i, s, TRUE, k, N(s) - d)
\* how many steps from the beginning a position is, and whether it is the end
R_PWhere(i, p) == <<IF pit[i].rev THEN p ELSE N(pit[i].own) - 1 - p, IF p = PEnd(i) THEN 1 ELSE 0>>
PCopy(i, j)   == pit[i].own # 0 /\ SetPIter(j, pit[i])
PMove(i, n)   == pit[i].own # 0 /\ POk(i, PStep(i, n)) /\ SetPIter(i, [pit[i] EXCEPT !.pos = PStep(i, n)])
PDeref(i)     == pit[i].own # 0 /\ pit[i].pos \in 0..(N(pit[i].own) - 1)
R_PGet(i)     == seq[pit[i].own][pit[i].pos + 1]
PSet(i)       == PDeref(i) /\ ~pit[i].k /\ SetAt(pit[i].own, N(pit[i].own) - pit[i].pos)
R_PEq(i, j)   == pit[i].pos = pit[j].pos

---------------------------------------------------------------------------
\* Failing operations.
NeedsPage(s, n) == cap[s] = 0 \/ N(s) + n > cap[s] * PS(s)

\* The j-th of n values pushed cannot be copied (or built). A page might have been added already.
PushThrow(s, n, j) ==
  /\ alive[s] /\ j \in 1..n /\ N(s) + n <= MaxSize
  /\ SetSeq(s, seq[s] \o Fresh(j - 1))
  /\ cap' = [cap EXCEPT ![s] = IF NeedsPage(s, j) THEN 0 ELSE cap[s]]
  /\ nextv' = nextv + n
  /\ Invalidate(s)
  /\ UNCHANGED <<geo, alive, shr, it>>
\* No memory at all for the page that is needed.
PushNoMem(s, n) ==
  /\ alive[s] /\ cap[s] # 0 /\ NeedsPage(s, n) /\ N(s) + n <= MaxSize
  /\ SetSeq(s, seq[s] \o Fresh(cap[s] * PS(s) - N(s)))
  /\ nextv' = nextv + n
  /\ Invalidate(s)
  /\ UNCHANGED <<geo, alive, shr, it, cap>>
\* Memory runs out after some requests; the caller then takes back what went in.
PushShortMem(s, n) ==
  /\ alive[s] /\ N(s) + n <= MaxSize
  /\ cap' = [cap EXCEPT ![s] = IF NeedsPage(s, n) THEN 0 ELSE cap[s]]
  /\ nextv' = nextv + n
  /\ Invalidate(s)
  /\ UNCHANGED <<geo, alive, shr, it, seq>>
\* The j-th of n values cannot be copied out.
PopThrow(s, n, j)  == j \in 1..n /\ n <= N(s) /\ Remove(s, j - 1)
ReadThrow(s)       == alive[s] /\ UNCHANGED vars
\* Copying a stack fails: nothing comes of it. Assigning it fails: the target holds what it had, or the first so many elements
\* of the source; it is then cleared.
CopyFails(s, t)    == alive[s] /\ ~alive[t] /\ UNCHANGED vars
AfterFailedAssign(s, t) == {seq[t]} \cup {SubSeq(seq[s], 1, k) : k \in 0..N(s)}
AssignFails(s, t) ==
  /\ alive[s] /\ alive[t] /\ s # t
  /\ SetSeq(t, <<>>)
  /\ cap' = [cap EXCEPT ![t] = 0]
  /\ Invalidate(t)
  /\ UNCHANGED <<geo, alive, shr, it, nextv>>
=============================================================================
