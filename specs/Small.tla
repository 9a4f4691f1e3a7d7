------------------------------- MODULE Small -------------------------------
(***************************************************************************)
(* The small allocator: size classes, one pool of objects for each.  Pools  *)
(* with slabs of one size form groups of at most GroupMax.  A class may be  *)
(* inactive: its chunks then come from the nearest greater active class of  *)
(* the group, and the difference is its waste.  A class is activated when   *)
(* its waste reaches a quarter of a slab; when memory runs out, active      *)
(* classes without chunks and with little waste are deactivated.            *)
(* In a checked (ASAN) build there are no classes: classes = <<>>.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

CONSTANT GroupMax

VARIABLES
    classes,   \* sequence of class sizes, increasing
    slabsz,    \* sequence: slab size of the class's pool
    grp,       \* sequence of <<first, last>>: the group of the class
    act,       \* set of active classes
    cnt,       \* sequence: chunks in the pool of the class
    waste,     \* sequence: waste of the class
    chunks     \* handle -> [size, own, pool, z, off, real]

smvars == <<classes, slabsz, grp, act, cnt, waste, chunks>>

N == Len(classes)

(* Group of class i when classes get slabs of sizes ss.                     *)
Groups(ss) ==
    LET \* where the runs of classes with slabs of one size start and end
        starts == {i \in 1..Len(ss) : i = 1 \/ ss[i - 1] # ss[i]}
        ends == {i \in 1..Len(ss) : i = Len(ss) \/ ss[i + 1] # ss[i]}
        GroupOf(i) ==
            LET s == CHOOSE j \in starts :
                        j <= i /\ \A k \in starts : k <= i => k <= j
                e == CHOOSE j \in ends :
                        j >= i /\ \A k \in ends : k >= i => k >= j
                f == s + GroupMax * ((i - s) \div GroupMax) IN
            <<f, IF f + GroupMax - 1 < e THEN f + GroupMax - 1 ELSE e>> IN
    [i \in 1..Len(ss) |-> GroupOf(i)]

WasteMax(i) == slabsz[i] \div 4
IsLast(i) == grp[i][2] = i
InitialAct(gr) == {i \in 1..Len(gr) : gr[i][2] = i}

Setup(cs, ss) ==
    /\ classes' = cs /\ slabsz' = ss /\ grp' = Groups(ss)
    /\ act' = InitialAct(grp')
    /\ cnt' = [i \in 1..Len(cs) |-> 0] /\ waste' = [i \in 1..Len(cs) |-> 0]
    /\ chunks' = <<>>

(* The smallest class that holds the size; 0: too big for every class.      *)
ClassOf(size) ==
    IF N = 0 \/ size > classes[N] THEN 0
    ELSE CHOOSE i \in 1..N : size <= classes[i]
                             /\ (i = 1 \/ classes[i - 1] < size)
UsedPool(i, a) == CHOOSE j \in a : /\ j >= i /\ j <= grp[i][2]
                                   /\ \A k \in a : k >= i => j <= k

Swept(a) == {i \in a : IsLast(i) \/ cnt[i] > 0
                       \/ waste[i] >= WasteMax(i) \div 4}

Apart(z1, o1, n1, z2, o2, n2) ==
    z1 # z2 \/ n1 = 0 \/ n2 = 0 \/ o1 + n1 <= o2 \/ o2 + n2 <= o1
PlaceFree(z, off, n) ==
    \A h \in DOMAIN chunks :
        Apart(z, off, n, chunks[h].z, chunks[h].off, chunks[h].real)

(* A chunk of class i; swept: the pools had to be swept first.              *)
AllocSmall(h, size, z, off, swept) ==
    LET i == ClassOf(size)
        a == IF swept THEN Swept(act) ELSE act
        p == UsedPool(i, a)
        w == waste[i] + classes[p] - classes[i] IN
    /\ act' = IF p # i /\ w >= WasteMax(i) THEN a \cup {i} ELSE a
    /\ cnt' = [cnt EXCEPT ![p] = @ + 1]
    /\ waste' = [waste EXCEPT ![i] = w]
    /\ chunks' = chunks @@ (h :> [size |-> size, own |-> i, pool |-> p,
                                  z |-> z, off |-> off, real |-> classes[p]])
    /\ UNCHANGED <<classes, slabsz, grp>>

(* A chunk outside of the pools.                                            *)
AllocLarge(h, size, z, off, taken) ==
    /\ chunks' = chunks @@ (h :> [size |-> size, own |-> 0, pool |-> taken,
                                  z |-> z, off |-> off, real |-> size])
    /\ UNCHANGED <<classes, slabsz, grp, act, cnt, waste>>

(* A request failed: the pools have been swept in vain.                     *)
Refuse(size) ==
    /\ act' = IF ClassOf(size) = 0 THEN act ELSE Swept(act)
    /\ UNCHANGED <<classes, slabsz, grp, cnt, waste, chunks>>

Free(h) ==
    /\ h \in DOMAIN chunks
    /\ LET c == chunks[h] IN
       IF c.own = 0 THEN UNCHANGED <<cnt, waste>>
       ELSE /\ cnt' = [cnt EXCEPT ![c.pool] = @ - 1]
            /\ waste' = [waste EXCEPT ![c.own] =
                            @ - (classes[c.pool] - classes[c.own])]
    /\ chunks' = [x \in DOMAIN chunks \ {h} |-> chunks[x]]
    /\ UNCHANGED <<classes, slabsz, grp, act>>

UsedBytes == LET F(i) == cnt[i] * classes[i] IN
    MapThenSumSet(F, {i \in 1..N : cnt[i] > 0})
LargeTaken == LET F(h) == chunks[h].pool IN
    MapThenSumSet(F, {h \in DOMAIN chunks : chunks[h].own = 0})
LiveBytes == LET F(h) == chunks[h].size IN MapThenSumSet(F, DOMAIN chunks)

-----------------------------------------------------------------------------
WasteExact ==
    \A i \in 1..N :
        LET F(h) == classes[chunks[h].pool] - classes[i] IN
        waste[i] = MapThenSumSet(F, {h \in DOMAIN chunks : chunks[h].own = i})
CntExact ==
    \A i \in 1..N : cnt[i] = Cardinality({h \in DOMAIN chunks :
                                chunks[h].own # 0 /\ chunks[h].pool = i})
WasteBounded == \A i \in 1..N \ act : waste[i] < WasteMax(i)
InactiveEmpty == \A i \in 1..N \ act : cnt[i] = 0
LastActive == \A i \in 1..N : grp[i][2] \in act
ChunkFits ==
    \A h \in DOMAIN chunks :
        LET c == chunks[h] IN
        c.own # 0 => /\ c.size <= c.real
                     /\ grp[c.own] = grp[c.pool] /\ c.own <= c.pool
                     /\ c.own = 1 \/ classes[c.own - 1] < c.size
SmallInv == WasteExact /\ CntExact /\ WasteBounded /\ InactiveEmpty
            /\ LastActive /\ ChunkFits
=============================================================================
