------------------------------- MODULE Strings ------------------------------
(* Property C11.  The modified UTF-8 form of UTF-16 sequences as defined by the JNI specification, and
   what every string function returns.  mode "all": every sequence over Units up to length MaxLen is
   made into a string from its units and from its modified UTF-8 form (round trip proved below), and is
   read back in every way.  mode "blocks": every one of the 65536 units.  mode "grow": one string grows
   unit by unit and regions of it are read (for long strings, by simulation).                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Mode, Units, MaxLen
VARIABLES s, last
vars == <<s, last>>
View == s

Enc1(u) == IF u # 0 /\ u < 128 THEN <<u>>
           ELSE IF u < 2048 THEN <<192 + u \div 64, 128 + (u % 64)>>
           ELSE <<224 + u \div 4096, 128 + ((u \div 64) % 64), 128 + (u % 64)>>
RECURSIVE Enc(_)
Enc(q) == IF q = <<>> THEN <<>> ELSE Enc1(Head(q)) \o Enc(Tail(q))
RECURSIVE Dec(_)
Dec(b) == IF b = <<>> THEN <<>>
          ELSE IF b[1] < 128 THEN <<b[1]>> \o Dec(Tail(b))
          ELSE IF b[1] < 224 THEN <<(b[1] - 192) * 64 + b[2] - 128>> \o Dec(SubSeq(b, 3, Len(b)))
          ELSE <<(b[1] - 224) * 4096 + (b[2] - 128) * 64 + b[3] - 128>> \o Dec(SubSeq(b, 4, Len(b)))
ASSUME \A u \in 0..65535 : Dec(Enc1(u)) = <<u>> /\ \A i \in DOMAIN Enc1(u) : Enc1(u)[i] \in 1..255

Seqs(n) == UNION {[1..k -> Units] : k \in 0..n}
Slice(q, i, n) == SubSeq(q, i + 1, i + n)
Regions(q) == [k \in 1..((Len(q) + 1) * (Len(q) + 2)) \div 2 |->
    \* k-th pair (start, length) in the order of starts, then lengths
    LET start == CHOOSE i \in 0..Len(q) : LET before == i * (Len(q) + 1) - (i * (i - 1)) \div 2 IN before < k /\ k <= before + Len(q) - i + 1
        n == k - (start * (Len(q) + 1) - (start * (start - 1)) \div 2) - 1
    IN <<Slice(q, start, n), Enc(Slice(q, start, n))>>]
Obs(q) == [len |-> Len(q), utflen |-> Len(Enc(q)), utf |-> Enc(q), chars |-> q, regions |-> Regions(q)]
Do(op, args, t, o) == s' = t /\ last' = [op |-> op, args |-> args, obs |-> o]

FromUnits(q) == Do("units", <<q>>, s, Obs(q))
FromUtf(q) == Do("utf", <<Enc(q)>>, s, Obs(q))
Block(b) == Do("block", <<b>>, s, [i \in 1..256 |-> Enc1(b * 256 + i - 1)])
Null == Do("null", <<>>, s, [len |-> 0, utflen |-> 0, utf |-> <<>>, end |-> <<0, 0>>])
Grow(u) == Len(s) < MaxLen /\ Do("grow", <<u>>, Append(s, u), [len |-> Len(s) + 1, utflen |-> Len(Enc(Append(s, u)))])
Reset == Do("reset", <<>>, <<>>, 0)
Region(i, n) == Do("region", <<i, n>>, s, <<Slice(s, i, n), Enc(Slice(s, i, n))>>)
Whole == Do("whole", <<>>, s, <<s, Enc(s)>>)

Init == s = <<>> /\ last = [op |-> "init", args |-> <<>>, obs |-> 0]
NextAll == (\E q \in Seqs(MaxLen) : FromUnits(q)) \/ (\E q \in Seqs(MaxLen) : FromUtf(q)) \/ Null
NextBlocks == \E b \in 0..255 : Block(b)
NextGrow == (\E u \in Units : Grow(u)) \/ Whole \/ (\E i \in 0..Len(s) : \E n \in 0..(Len(s) - i) : Region(i, n)) \/ Reset
Next == IF Mode = "all" THEN NextAll ELSE IF Mode = "blocks" THEN NextBlocks ELSE NextGrow
Spec == Init /\ [][Next]_vars
RoundTrip == Dec(Enc(s)) = s
Edge == PrintT("E " \o ToJson([s |-> View, l |-> last', t |-> View']))
SimEdge == PrintT("S " \o ToJson([lv |-> TLCGet("level"), s |-> View, l |-> last', t |-> View']))
=============================================================================
