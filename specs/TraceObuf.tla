----------------------------- MODULE TraceObuf -----------------------------
(* O01: the stream, its place, capacities and accounting.                    *)
(* N02: shadow state in checked builds, where each request may have a block  *)
(* of its own: there only the stream and the places of the bytes are told.   *)
EXTENDS Obuf, TraceLib

VARIABLES checked, hdr
tvars == <<obvars, checked, hdr, l>>

TInit == l = 1 /\ ob = New(1) /\ svps = <<>> /\ checked = FALSE /\ hdr = -1

TResetAll ==
    /\ Ev.op = "init"
    /\ ob' = New(Ev.start) /\ svps' = <<>>
    /\ checked' = (Ev.checked = 1) /\ hdr' = -1

TraceInv == checked \/ ObufInv

WithData(v) == Cardinality({i \in 1..Len(v) : v[i].len > 0})

(* The vectors are those of the specification.                              *)
Agrees ==
    /\ Chk("O01", "size", LenOf(ob'.q) = Ev.size)
    /\ Chk("O01", "content", ob'.q = Ev.runs)
    /\ Chk("O01", "number of vectors",
           \/ WithData(Ev.vecs) = Ev.cnt
           \* A reserved vector without data may be counted.
           \/ checked /\ WithData(Ev.vecs) + 1 = Ev.cnt)
    /\ ~checked => Chk("O01", "vectors", ob'.v = Ev.vecs)
    /\ hdr' = IF hdr < 0 /\ ~checked /\ Ev.vecs # <<>>
              THEN Ev.cused - Ev.vecs[1].cap ELSE hdr
    /\ ~checked => Chk("O01", "slab cache used",
            Ev.cused = (IF Ev.vecs = <<>> THEN 0
                        ELSE SumCap(Ev.vecs) + Len(Ev.vecs) * hdr'))

Hidden == Chk("N02", "unused memory is accessible", Ev.exposed = 0)
Dead == Chk("N02", "dropped memory is accessible", Ev.ndead = 0)
Shadow ==
    "pb" \in DOMAIN Ev =>
        /\ Chk("N02", "byte after is accessible", Ev.pa = 1)
        /\ Chk("N02", "own byte is not accessible", Ev.pin = 0)

-----------------------------------------------------------------------------
(* Checked build: written bytes keep their places, the new ones follow.     *)
Keeps(v, w) ==
    \A i \in 1..Len(v) : v[i].len > 0 =>
        i <= Len(w) /\ w[i].at = v[i].at /\ w[i].len >= v[i].len
Overlap(a, b) ==
    /\ a.at[1] = b.at[1]
    /\ a.at[2] < b.at[2] + b.cap /\ b.at[2] < a.at[2] + a.cap
Apart(w) == \A i, j \in 1..Len(w) : i # j => ~Overlap(w[i], w[j])
(* The last n bytes of the stream lie together at p.                        *)
EndsAt(w, n, p) ==
    LET i == CHOOSE i \in 1..Len(w) : w[i].len > 0
                 /\ \A j \in 1..Len(w) : w[j].len > 0 => j <= i IN
    /\ \E j \in 1..Len(w) : w[j].len > 0
    /\ w[i].len >= n /\ p = <<w[i].at[1], w[i].at[2] + w[i].len - n>>
GoodPlaces ==
    /\ Chk("O01", "written bytes have moved", Keeps(ob.v, Ev.vecs))
    /\ Chk("O01", "vectors overlap", Apart(Ev.vecs))
    /\ Chk("O01", "capacity exceeded",
           \A i \in 1..Len(Ev.vecs) : Ev.vecs[i].len <= Ev.vecs[i].cap)
    /\ Chk("O01", "size of the vectors", SumLen(Ev.vecs) = Ev.size)

CAlloc ==
    /\ Chk("O01", "refused", Ev.okp = 1)
    /\ GoodPlaces
    /\ Chk("O01", "result", EndsAt(Ev.vecs, Ev.n, Ev.p))
    /\ ob' = [ob EXCEPT !.q = Join(@, <<Ev.v, Ev.n>>), !.v = Ev.vecs,
                        !.resv = 0]
    /\ UNCHANGED svps
CReserve ==
    /\ Chk("O01", "refused", Ev.okp = 1)
    /\ GoodPlaces
    /\ ob' = [ob EXCEPT !.v = Ev.vecs, !.resv = Ev.n]
    /\ UNCHANGED svps
CDup ==
    /\ Chk("O01", "refused", Ev.done = Ev.n)
    /\ GoodPlaces
    /\ ob' = [ob EXCEPT !.q = Join(@, <<Ev.v, Ev.n>>), !.v = Ev.vecs]
    /\ UNCHANGED svps
CDrop(used, k) ==
    /\ Chk("O01", "written bytes have moved", \A i \in 1..Len(Ev.vecs) :
            Ev.vecs[i].len > 0 => i <= Len(ob.v) /\ Ev.vecs[i].at = ob.v[i].at)
    /\ Chk("O01", "size of the vectors", SumLen(Ev.vecs) = Ev.size)
    /\ ob' = [ob EXCEPT !.q = KeepFirst(@, used), !.v = Ev.vecs, !.resv = 0]
    /\ svps' = SubSeq(svps, 1, k)

-----------------------------------------------------------------------------
(* The block that appears in this event, if one does.                       *)
NewAt(p) == IF p <= Len(Ev.vecs) THEN Ev.vecs[p].at ELSE <<>>
NewCap(p) == IF p <= Len(Ev.vecs) THEN Ev.vecs[p].cap ELSE 0

Fresh(p) ==
    /\ Chk("O01", "a new block was needed", p <= Len(Ev.vecs))
    /\ Chk("O01", "vectors overlap", Apart(Ev.vecs))
    /\ Chk("O01", "capacity below the start capacity",
           p = 1 => NewCap(p) >= ob.start)

RefusedOk(n) ==
    /\ Chk("O01", "refused though it fits", NeedsBlock(ob, n))
    /\ Chk("O01", "refused though there is memory",
           Ev.probe = 0 \/ ~MayGrow(ob, n))
    /\ Refused(n)

EndOf(o, p) == <<o.v[p].at[1], o.v[p].at[2] + o.v[p].len>>

TAlloc ==
    /\ Ev.op = "alloc" /\ Hidden /\ Shadow
    /\ ob.resv # 0 => Chk("O01", "refused within a reservation", Ev.okp = 1)
    /\ \E p \in {Target(ob, Ev.n)} :
       IF checked THEN CAlloc
       ELSE IF Ev.okp = 0 THEN RefusedOk(Ev.n)
       ELSE /\ NeedsBlock(ob, Ev.n) => Fresh(p)
            /\ Chk("O01", "capacity", NeedsBlock(ob, Ev.n) => NewCap(p) >= Ev.n)
            /\ Alloc(Ev.v, Ev.n, NewCap(p), NewAt(p))
            /\ \E e \in {EndOf(ob', p)} :
               Chk("O01", "result", Ev.p = <<e[1], e[2] - Ev.n>>)
    /\ Agrees

TReserve ==
    /\ Ev.op = "reserve"
    /\ \E p \in {Target(ob, Ev.n)} :
       IF checked THEN CReserve
       ELSE IF Ev.okp = 0 THEN RefusedOk(Ev.n)
       ELSE /\ NeedsBlock(ob, Ev.n) => Fresh(p)
            /\ Chk("O01", "capacity", NeedsBlock(ob, Ev.n) => NewCap(p) >= Ev.n)
            /\ Reserve(Ev.n, NewCap(p), NewAt(p))
            /\ Chk("O01", "result", Ev.p = EndOf(ob', p))
            /\ Ev.how # 0 => Chk("O01", "reported space",
                                Ev.got = RoomAt(ob', p))
    /\ Agrees

TDup ==
    /\ Ev.op = "dup" /\ Hidden
    /\ IF checked THEN CDup
       ELSE \E f \in {Fill(ob, Ev.v, Ev.n)} :
            IF f.left = 0
            THEN /\ Chk("O01", "accepted", Ev.done = Ev.n)
                 /\ Dup(Ev.v, Ev.n, 0, <<>>)
            ELSE IF Has(f.o, f.o.pos)
            THEN /\ Chk("O01", "accepted", Ev.done = Ev.n - f.left)
                 /\ Dup(Ev.v, Ev.n, 0, <<>>)
            ELSE IF Ev.done = Ev.n
            THEN /\ Fresh(f.o.pos)
                 /\ Dup(Ev.v, Ev.n, NewCap(f.o.pos), NewAt(f.o.pos))
            ELSE /\ Chk("O01", "accepted", Ev.done = Ev.n - f.left)
                 /\ Chk("O01", "refused though there is memory", Ev.probe = 0)
                 /\ DupRefused(Ev.v, Ev.n)
    /\ Agrees

THuge ==
    /\ Ev.op = "huge"
    /\ Chk("O01", "impossible request is served", Ev.okp = 0)
    /\ Refused(2000000000)
    /\ Agrees

(* A savepoint is the end of the stream; a block that does not exist yet     *)
(* has no address.                                                          *)
PlaceOf(s) ==
    s.len > 0 =>
        Chk("O01", "place of a savepoint", s.pos <= Len(Ev.vecs)
            /\ Ev.p = <<Ev.vecs[s.pos].at[1], Ev.vecs[s.pos].at[2] + s.len>>)
TSvp ==
    /\ Ev.op = "svp"
    /\ IF checked
       THEN LET n == WithData(Ev.vecs) IN
            /\ UNCHANGED ob
            /\ svps' = Append(svps, [pos |-> n, used |-> Size,
                         len |-> IF n = 0 THEN 0 ELSE Ev.vecs[n].len])
       ELSE Savepoint
    /\ \E s \in {svps'[Len(svps')]} : PlaceOf(s)
    /\ Agrees
TPtr ==
    /\ Ev.op = "ptr"
    /\ PlaceOf(svps[Ev.k])
    /\ UNCHANGED obvars
    /\ Agrees

TRollback ==
    /\ Ev.op = "rollback" /\ Dead
    /\ IF checked THEN CDrop(svps[Ev.k].used, Ev.k) ELSE Rollback(Ev.k)
    /\ Agrees
TReset ==
    /\ Ev.op = "reset" /\ Dead
    /\ IF checked THEN CDrop(0, 0) ELSE Reset
    /\ Agrees
TDestroy ==
    /\ Ev.op = "destroy" /\ Dead
    /\ Chk("O01", "memory is left", Ev.cused = 0)
    /\ Chk("O01", "initialized", Ev.init = 1 /\ Ev.left = 0)
    /\ ob' = New(1) /\ svps' = <<>> /\ UNCHANGED hdr
TGone == Gone({"O01", "N01"}) /\ UNCHANGED <<obvars, hdr>>

TNext ==
    /\ HasEvent
    /\ \/ TResetAll
       \/ (TAlloc \/ TReserve \/ TDup \/ THuge \/ TSvp \/ TPtr \/ TRollback
           \/ TReset \/ TDestroy \/ TGone) /\ UNCHANGED checked
    /\ Consume

TSpec == TInit /\ [][TNext]_tvars
=============================================================================
