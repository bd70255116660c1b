-------------------------- MODULE PagedStackGen --------------------------
(***************************************************************************)
(* Generates behaviours of PagedStack, with the reply of every operation   *)
(* and what can be seen of the stacks after it, to be replayed on the real *)
(* class. Sim: one operation per step is drawn at random (-simulate);      *)
(* otherwise every transition is explored, and a shortest history leading  *)
(* to each one is printed.                                                 *)
(***************************************************************************)
EXTENDS PagedStack, TLC, Json

CONSTANTS Ops,     \* sequence of the names of the operations to use (repeated to have more of them)
          Depth,   \* length of the behaviours, in Sim
          Sim,
          MaxArgs, \* values in one call
          BulkMax  \* single pushes done as one step

VARIABLE hist

gvars == <<vars, hist>>

\* (the test of nextv keeps TLC from taking the choice as a constant)
Pick(S) == IF Sim /\ nextv > 0 /\ S # {} THEN {RandomElement(S)} ELSE S
Min(a, b) == IF a < b THEN a ELSE b
B(b) == IF b THEN 1 ELSE 0

Live == {s \in Stacks : alive[s]}
LiveIters == {i \in Iters : it[i].own # 0}
FreeIters == {i \in Iters : it[i].own = 0}
LivePIters == {i \in PIters : pit[i].own # 0}

Obs == [s \in Stacks |-> IF alive'[s]
          THEN <<Len(seq'[s]), IF seq'[s] = <<>> THEN 0 ELSE seq'[s][Len(seq'[s])], cap'[s], geo'[s][1]>>
          ELSE <<>>]

Log(o, s, a, r) == hist' = Append(hist, <<o, s, a, r, Obs>>)

Room(s) == MaxSize - N(s)
Kinds == IF Sim THEN 0..3 ELSE {0}    \* ways to write the same thing, see the harness

\* ways for a value not to be copied out: no copy of it can be made, it cannot be assigned, its destination cannot be assigned
Modes == 0..2

Do(o) ==
  \/ /\ o = "push"
     /\ \E s \in Pick(Live) : \E n \in Pick(1..Min(MaxArgs, Room(s))) :
          Push(s, n) /\ Log(o, s, Fresh(n), <<>>)
  \/ /\ o = "emplace"
     /\ \E s \in Pick(Live) : Push(s, 1) /\ Log(o, s, Fresh(1), <<>>)
  \/ /\ o = "pushbulk"
     /\ \E s \in Pick(Live) : \E n \in Pick(1..Min(BulkMax, Room(s))) :
          Push(s, n) /\ Log(o, s, <<nextv, n>>, <<>>)
  \/ /\ o = "pushown"
     /\ \E s \in Pick({x \in Live : N(x) > 0}) : \E d \in Pick(1..N(s)) : \E e \in Pick(0..N(s)) : \E k \in Pick(0..1) :
          LET ds == IF e = 0 THEN <<d>> ELSE <<d, e>> IN
          PushOwn(s, ds) /\ Log(o, s, <<d, e, k>>, <<>>)
  \/ /\ o = "topown"
     /\ \E s \in Pick({x \in Live : N(x) > 0}) : \E d \in Pick(1..N(s)) : TopOwn(s, d) /\ Log(o, s, <<d>>, <<>>)
  \/ /\ o = "pop0"
     /\ \E s \in Pick(Live) : Pop(s, 1) /\ Log(o, s, <<>>, <<>>)
  \/ /\ o = "pop"
     /\ \E s \in Pick(Live) : \E n \in Pick(1..Min(MaxArgs, N(s))) :
          Pop(s, n) /\ Log(o, s, <<n>>, R_Pop(s, n))
  \/ /\ o = "poprev"
     /\ \E s \in Pick(Live) : \E n \in Pick(1..Min(MaxArgs, N(s))) :
          Remove(s, n) /\ Log(o, s, <<n>>, R_PopReverse(s, n))
  \/ /\ o = "discard"
     /\ \E s \in Pick(Live) : \E n \in Pick(0..Min(BulkMax, N(s))) :
          Discard(s, n) /\ Log(o, s, <<n>>, <<>>)
  \/ /\ o = "discardall"
     /\ \E s \in Pick(Live) : Discard(s, N(s)) /\ Log("discard", s, <<N(s)>>, <<>>)
  \/ /\ o = "discardpage"   \* to a page boundary
     /\ \E s \in Pick(Live) : \E p \in Pick(0..(N(s) \div PS(s))) :
          Discard(s, N(s) - p * PS(s)) /\ Log("discard", s, <<N(s) - p * PS(s)>>, <<>>)
  \/ /\ o = "discardat"
     /\ \E s \in Pick(Live) : \E d \in Pick(1..N(s)) : \E k \in Pick(0..4) :
          DiscardAt(s, d) /\ Log(o, s, <<d, k>>, <<>>)
  \/ /\ o = "clear"
     /\ \E s \in Pick(Live) : Clear(s) /\ Log(o, s, <<>>, <<>>)
  \/ /\ o = "settop"
     /\ \E s \in Pick(Live) : SetTop(s) /\ Log(o, s, <<nextv>>, <<>>)
  \/ /\ o = "setat"
     /\ \E s \in Pick(Live) : \E d \in Pick(1..N(s)) : \E k \in Pick(0..2) :
          SetAt(s, d) /\ Log(o, s, <<d, k, nextv>>, <<>>)
  \/ /\ o = "stats"
     /\ \E s \in Pick(Live) : Read(s) /\ Log(o, s, <<>>, R_Stats(s))
  \/ /\ o = "forward"
     /\ \E s \in Pick(Live) : \E k \in Pick(0..1) : Read(s) /\ Log(o, s, <<k>>, R_Forward(s))
  \/ /\ o = "reverse"
     /\ \E s \in Pick(Live) : \E k \in Pick(0..1) : Read(s) /\ Log(o, s, <<k>>, R_Reverse(s))
  \/ /\ o = "fromtop"
     /\ \E s \in Pick(Live) : \E d \in Pick(0..N(s)) : \E k \in Pick(0..1) :
          Read(s) /\ Log(o, s, <<d, k>>, R_FromTop(s, d))
  \/ /\ o = "peek"
     /\ \E s \in Pick(Live) : \E n \in Pick(1..Min(MaxArgs, N(s))) : \E k \in Pick(0..1) :
          Read(s) /\ Log(o, s, <<n, k>>, R_Peek(s, n))
  \/ /\ o = "peekd"
     /\ \E s \in Pick(Live) : \E d \in Pick(1..N(s)) : \E n \in Pick(1..Min(MaxArgs, d)) : \E k \in Pick(0..1) :
          Read(s) /\ Log(o, s, <<d, n, k>>, R_PeekDepth(s, d, n))
  \/ /\ o = "peekr"
     /\ \E s \in Pick(Live) : \E n \in Pick(1..Min(MaxArgs, N(s))) : \E k \in Pick(0..1) :
          Read(s) /\ Log(o, s, <<n, k>>, R_PeekReverse(s, n))
  \/ /\ o = "distr"    \* generic distribution; k: over which kind of iterator
     /\ \E s \in Pick(Live) : \E n \in Pick(1..Min(MaxArgs, N(s))) : \E k \in Pick(0..5) :
          Read(s) /\ Log(o, s, <<n, k>>, IF k \in {0, 1, 4} THEN R_Peek(s, n) ELSE SubSeq(seq[s], 1, n))
  \/ /\ o = "shrink"
     /\ \E s \in Pick(Live) : Shrink(s) /\ Log(o, s, <<>>, <<>>)
  \/ /\ o = "copy"
     /\ \E s \in Pick(Live) : \E t \in Pick(Stacks \ Live) : CopyTo(s, t) /\ Log(o, s, <<t>>, <<>>)
  \/ /\ o = "move"
     /\ \E s \in Pick(Live) : \E t \in Pick(Stacks \ Live) : MoveTo(s, t) /\ Log(o, s, <<t>>, <<>>)
  \/ /\ o = "assign"
     /\ \E s \in Pick(Live) : \E t \in Pick(Live) : AssignTo(s, t) /\ Log(o, s, <<t>>, <<>>)
  \/ /\ o = "create"
     /\ \E s \in Pick(Stacks \ Live) : \E g \in Pick(Geometries) : Create(s, g) /\ Log(o, s, g, <<>>)
  \/ /\ o = "destroy"
     /\ Cardinality(Live) > 1
     /\ \E s \in Pick(Live) : Destroy(s) /\ Log(o, s, <<>>, <<>>)
  \* --- synchronised iterators
  \/ /\ o = "sbegin"
     /\ \E s \in Pick(Live) : \E i \in Pick(FreeIters) : \E k \in Pick(BOOLEAN) : \E w \in Pick(Kinds) :
          SyncBegin(i, s, k) /\ Log(o, s, <<i, B(k), w>>, <<>>)
  \/ /\ o = "send"
     /\ \E s \in Pick(Live) : \E i \in Pick(FreeIters) : \E k \in Pick(BOOLEAN) : \E w \in Pick(Kinds) :
          SyncEnd(i, s, k) /\ Log(o, s, <<i, B(k), w>>, <<>>)
  \/ /\ o = "scopy"
     /\ \E i \in Pick(LiveIters) : \E j \in Pick(FreeIters) : SyncCopy(i, j) /\ Log(o, it[i].own, <<i, j>>, <<>>)
  \/ /\ o = "sassign"
     /\ \E i \in Pick(LiveIters) : \E j \in Pick(LiveIters) : SyncAssign(i, j) /\ Log(o, it[i].own, <<i, j>>, <<>>)
  \/ /\ o = "sdrop"
     /\ \E i \in Pick(LiveIters) : SyncDrop(i) /\ Log(o, it[i].own, <<i>>, <<>>)
  \/ /\ o = "sget"
     /\ \E i \in Pick(LiveIters) : SyncGet(i) /\ Log(o, it[i].own, <<i>>, <<R_SyncGet(i)>>)
  \/ /\ o = "snext"
     /\ \E i \in Pick(LiveIters) : SyncNext(i) /\ Log(o, it[i].own, <<i>>, <<>>)
  \/ /\ o = "sprev"
     /\ \E i \in Pick(LiveIters) : SyncPrev(i) /\ Log(o, it[i].own, <<i>>, <<>>)
  \/ /\ o = "sfail"
     /\ \E i \in Pick(LiveIters) : \E k \in Pick(0..2) : SyncFail(i) /\ Log(o, it[i].own, <<i, k>>, <<>>)
  \/ /\ o = "seq"
     /\ \E i \in Pick(LiveIters) : \E j \in Pick({x \in LiveIters : it[x].own = it[i].own /\ it[x].k = it[i].k}) :
          UNCHANGED vars /\ Log(o, it[i].own, <<i, j>>, <<B(R_SyncEq(i, j))>>)
  \* --- plain iterators
  \/ /\ o = "pbegin"
     /\ \E s \in Pick(Live) : \E i \in Pick(PIters) : \E rev \in Pick(BOOLEAN) : \E k \in Pick(BOOLEAN) : \E w \in Pick(Kinds) :
          PBegin(i, s, rev, k) /\ Log(o, s, <<i, B(rev), B(k), w>>, <<>>)
  \/ /\ o = "pend"
     /\ \E s \in Pick(Live) : \E i \in Pick(PIters) : \E rev \in Pick(BOOLEAN) : \E k \in Pick(BOOLEAN) : \E w \in Pick(Kinds) :
          PFin(i, s, rev, k) /\ Log(o, s, <<i, B(rev), B(k), w>>, <<>>)
  \/ /\ o = "pfromtop"
     /\ \E s \in Pick(Live) : \E i \in Pick(PIters) : \E k \in Pick(BOOLEAN) : \E d \in Pick(0..N(s)) :
          PFromTop(i, s, k, d) /\ Log(o, s, <<i, B(k), d>>, <<>>)
  \/ /\ o = "pcopy"
     /\ \E i \in Pick(LivePIters) : \E j \in Pick(PIters) : PCopy(i, j) /\ Log(o, pit[i].own, <<i, j>>, <<>>)
  \/ /\ o = "pmove"     \* w: 0 prefix, 1 postfix, 2 jump (when by one)
     /\ \E i \in Pick(LivePIters) : \E n \in Pick({x \in -(2 * PS(pit[i].own) + 1)..(2 * PS(pit[i].own) + 1) : POk(i, PStep(i, x))}) :
        \E w \in Pick(IF n \in {-1, 1} THEN 0..2 ELSE {2, 3}) :
          PMove(i, n) /\ Log(o, pit[i].own, <<i, n, w>>, R_PWhere(i, PStep(i, n)))
  \/ /\ o = "pjump"     \* any distance
     /\ \E i \in Pick(LivePIters) : \E n \in Pick({x \in -(N(pit[i].own) + 1)..(N(pit[i].own) + 1) : POk(i, PStep(i, x))}) :
          PMove(i, n) /\ Log("pmove", pit[i].own, <<i, n, 2>>, R_PWhere(i, PStep(i, n)))
  \/ /\ o = "pget"
     /\ \E i \in Pick({x \in LivePIters : PDeref(x)}) : UNCHANGED vars /\ Log(o, pit[i].own, <<i>>, <<R_PGet(i)>>)
  \/ /\ o = "pset"
     /\ \E i \in Pick({x \in LivePIters : PDeref(x) /\ ~pit[x].k}) : \E w \in Pick(0..1) :
          PSet(i) /\ Log(o, pit[i].own, <<i, w, nextv>>, <<>>)
  \/ /\ o = "peq"
     /\ \E i \in Pick(LivePIters) :
        \E j \in Pick({x \in LivePIters : pit[x].own = pit[i].own /\ pit[x].rev = pit[i].rev /\ pit[x].k = pit[i].k}) :
          UNCHANGED vars /\ Log(o, pit[i].own, <<i, j>>, <<B(R_PEq(i, j))>>)
  \* --- failures
  \/ /\ o = "pushthrow"
     /\ \E s \in Pick(Live) : \E n \in Pick(1..Min(MaxArgs, Room(s))) : \E j \in Pick(1..n) :
          PushThrow(s, n, j) /\ Log(o, s, <<j>> \o Fresh(n), <<>>)
  \/ /\ o = "emplacethrow"
     /\ \E s \in Pick(Live) : PushThrow(s, 1, 1) /\ Log(o, s, Fresh(1), <<>>)
  \/ /\ o = "pushnomem"
     /\ \E s \in Pick(Live) : \E n \in Pick(1..Min(MaxArgs, Room(s))) : \E k \in Pick(0..(IF n = 1 THEN 1 ELSE 0)) :
          PushNoMem(s, n) /\ Log(o, s, <<k>> \o Fresh(n), <<>>)
  \/ /\ o = "pushshort"
     /\ \E s \in Pick(Live) : \E n \in Pick(1..Min(MaxArgs, Room(s))) : \E k \in Pick(1..(2 * PA(s) + 2)) :
          NeedsPage(s, n) /\ PushShortMem(s, n) /\ Log(o, s, <<k>> \o Fresh(n), <<>>)
  \/ /\ o = "popthrow"
     /\ \E s \in Pick(Live) : \E n \in Pick(1..Min(MaxArgs, N(s))) : \E j \in Pick(1..n) : \E m \in Pick(Modes) :
          PopThrow(s, n, j) /\ Log(o, s, <<n, j, m>>, TopVals(seq[s], n))
  \/ /\ o = "poprevthrow"
     /\ \E s \in Pick(Live) : \E n \in Pick(1..Min(MaxArgs, N(s))) : \E j \in Pick(1..n) : \E m \in Pick(Modes) :
          ReadThrow(s) /\ Log(o, s, <<n, j, m>>, R_PopReverse(s, n))
  \/ /\ o = "peekthrow"
     /\ \E s \in Pick(Live) : \E n \in Pick(1..Min(MaxArgs, N(s))) : \E j \in Pick(1..n) : \E k \in Pick(0..2) : \E m \in Pick(Modes) :
          ReadThrow(s) /\ Log(o, s, <<n, j, k, m>>, IF k = 0 THEN R_Peek(s, n) ELSE R_PeekReverse(s, n))
  \/ /\ o = "copythrow"    \* the element at depth d cannot be copied (once more)
     /\ \E s \in Pick({x \in Live : N(x) > 0}) : \E t \in Pick(Stacks \ Live) : \E d \in Pick(1..N(s)) :
          CopyFails(s, t) /\ Log(o, s, <<t, seq[s][N(s) + 1 - d]>>, <<>>)
  \/ /\ o = "assignthrow"  \* .. or when it is copied for the (k+1)-th time
     /\ \E s \in Pick({x \in Live : N(x) > 0}) : \E t \in Pick(Live \ {s}) : \E d \in Pick(1..N(s)) : \E k \in Pick(0..1) :
          AssignFails(s, t) /\ Log(o, s, <<t, seq[s][N(s) + 1 - d], k>>, <<seq[t], seq[s]>>)
  \/ /\ o = "copynomem"    \* memory for k requests
     /\ \E s \in Pick(Live) : \E t \in Pick(Stacks \ Live) : \E k \in Pick(0..16) :
          CopyFails(s, t) /\ Log(o, s, <<t, k>>, seq[s])
  \/ /\ o = "assignnomem"
     /\ \E s \in Pick(Live) : \E t \in Pick(Live \ {s}) : \E k \in Pick(0..16) :
          AssignFails(s, t) /\ Log(o, s, <<t, k>>, <<seq[t], seq[s]>>)

GenInit == Init /\ hist = << <<"create", 1, geo[1], <<>>, [s \in Stacks |-> IF s = 1 THEN <<0, 0, geo[1][2], geo[1][1]>> ELSE <<>>]>> >>
GenNext ==
  \/ \E x \in Pick(DOMAIN Ops) : Do(Ops[x])
  \/ Sim /\ UNCHANGED gvars
GenSpec == GenInit /\ [][GenNext]_gvars

Final == [s \in Stacks |-> IF alive[s] THEN seq[s] ELSE <<>>]
EmitSim == (Sim /\ TLCGet("level") = Depth) =>
           PrintT(ToJson(<<"T", hist, Final>>))
EmitStep == ~Sim => PrintT(ToJson(<<"T", hist', Final'>>))

\* What the exhaustive exploration tells apart.
View == <<geo, alive, [s \in Stacks |-> Len(seq[s])], cap, shr, it, pit>>
=============================================================================
