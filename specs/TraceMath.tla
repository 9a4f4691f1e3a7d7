----------------------------- MODULE TraceMath -----------------------------
(* S01: size classes.  U01: integer helpers.                                 *)
EXTENDS SmallClass, Bits, TraceLib

VARIABLES q,      \* the classes of the current configuration
          all     \* and all those of 32 bits, as pairs, if known
tvars == <<q, all, l>>

TInit == l = 1 /\ q = <<>> /\ all = <<>>
TReset == Ev.op = "init" /\ q' = <<>> /\ all' = <<>>
SetOf(s) == {s[i] : i \in 1..Len(s)}

(* The number of effective bits, from log2 of the effective factor * 10^6.  *)
NOf(la) == CHOOSE n \in 0..12 :
    LET d == la - 1000000 \div Pow2(n) IN d \in -1..1
HasN(la) == \E n \in 0..12 :
    LET d == la - 1000000 \div Pow2(n) IN d \in -1..1

TClass ==
    /\ Ev.op = "class"
    /\ Chk("S01", "effective factor", HasN(Ev.la)
           /\ 2 * Ev.la >= Ev.lf - 2 /\ 2 * Ev.la <= 3 * Ev.lf + 2)
    /\ Chk("S01", "class sizes",
           ClassesRight(NOf(Ev.la), Ev.gran, Ev.min, Ev.sizes))
    /\ Chk("S01", "promises", Increasing(Ev.sizes)
           /\ (Ev.min % Ev.gran = 0 => Multiples(Ev.sizes, Ev.gran))
           /\ (Len(Ev.sizes) > 0 => Ev.sizes[1] = Ev.min))
    /\ q' = Ev.sizes
    /\ \E a \in {IF Ev.all = 1
                 THEN [i \in 1..(Len(Ev.sizes) + Len(Ev.big)) |->
                       IF i <= Len(Ev.sizes) THEN PairOf(Ev.sizes[i])
                       ELSE Ev.big[i - Len(Ev.sizes)]]
                 ELSE <<>>} :
        /\ Chk("S01", "sizes of big classes",
               a # <<>> => PairsRight(NOf(Ev.la), Ev.gran, Len(Ev.sizes), a)
                           /\ NoneLeft(NOf(Ev.la), Ev.gran, a))
        /\ all' = a

TMap ==
    /\ Ev.op = "map"
    /\ Chk("S01", "class of a size",
           \A i \in 1..Len(Ev.m) : IsClassOf(q, Ev.m[i][1], Ev.m[i][2]))
    /\ UNCHANGED <<q, all>>

TBigMap ==
    /\ Ev.op = "bmap"
    /\ Chk("S01", "class of a big size",
           all # <<>> /\ \A i \in 1..Len(Ev.m) :
                              IsPairClassOf(all, Ev.m[i][1], Ev.m[i][2]))
    /\ UNCHANGED <<q, all>>

TBits ==
    /\ Ev.op \in {"align", "down", "round", "lb"}
    /\ \E x \in {SetOf(Ev.x)}, r \in {SetOf(Ev.r)} :
        Chk("U01", "value",
            CASE Ev.op = "align" -> r = AlignUp(x, Ev.k)
              [] Ev.op = "down" -> r = AlignDown(x, Ev.k)
              [] Ev.op = "round" -> r = RoundUp(x)
              [] OTHER -> r = SetOf(
                   SelectSeq(<<0, 1, 2, 3, 4, 5>>,
                             LAMBDA b : (Top(x) \div Pow2(b)) % 2 = 1)))
    /\ UNCHANGED <<q, all>>

TNext == HasEvent /\ (TReset \/ TClass \/ TMap \/ TBigMap \/ TBits) /\ Consume
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
