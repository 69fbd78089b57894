------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Byte strings.  A byte is an integer in 0..255, a byte string a sequence *)
(* of bytes.  Everything the codec does to its input is expressed with the *)
(* operators of this module, so that the specification talks about the     *)
(* same objects as the implementation: raw bytes, not abstract tokens.     *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt

NUL == 0
LF  == 10
CR  == 13
SP  == 32
LT  == 60      \* '<'
GT  == 62      \* '>'

\* The least position i with from <= i and s[i] = b, or 0 if there is none.
Find(b, s, from) ==
    SelectInSubSeq(s, from, Len(s), LAMBDA x : x = b)

\* p occurs in s at position i
At(s, i, p) ==
    /\ i + Len(p) - 1 <= Len(s)
    /\ \A k \in 1..Len(p) : s[i + k - 1] = p[k]

HasPrefix(s, p) == IsPrefix(p, s)

From(s, i) == SubSeq(s, i, Len(s))

\* s with its first n bytes removed
Drop(s, n) == From(s, n + 1)

TrimCR(s) == IF s # <<>> /\ s[Len(s)] = CR THEN SubSeq(s, 1, Len(s) - 1) ELSE s

Concat(ss) == FoldLeft(LAMBDA a, x : a \o x, <<>>, ss)

\* Split s at every space: Split(<<>>) = << <<>> >>
RECURSIVE SplitFrom(_, _)
SplitFrom(s, i) ==
    LET j == Find(SP, s, i)
    IN  IF i > Len(s) \/ j = 0
        THEN << From(s, i) >>
        ELSE << SubSeq(s, i, j - 1) >> \o SplitFrom(s, j + 1)

Split(s) == SplitFrom(s, 1)

\* The sequence of byte strings ss joined by single spaces
Join(ss) ==
    IF ss = <<>> THEN <<>>
    ELSE FoldLeft(LAMBDA a, x : a \o <<SP>> \o x, Head(ss), Tail(ss))

---------------------------------------------------------------------------
\* Decimal numbers

IsDigit(b) == b >= 48 /\ b <= 57
AllDigits(s) == s # <<>> /\ \A i \in 1..Len(s) : IsDigit(s[i])

RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN << 48 + n >> ELSE Dec(n \div 10) \o << 48 + (n % 10) >>

StripZeros(s) ==
    LET i == SelectInSubSeq(s, 1, Len(s), LAMBDA x : x # 48)
    IN  IF i = 0 THEN <<>> ELSE From(s, i)

\* Lexicographic <= of byte strings of equal length
LexLeq(a, b) ==
    \/ a = b
    \/ \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]

MaxInt64 == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,55>>
MinInt64 == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56>>

\* TLC's integers have 32 bits.  Sizes from 10^9 are all mapped to Big, which
\* is more than any input has bytes.
Big == 2000000000

\* A signed decimal integer of 64 bits: [ok, neg, v], and whether it is
\* written the one canonical way: no plus sign, no leading zeros
Atoi(s) ==
    LET signed == s # <<>> /\ (s[1] = 43 \/ s[1] = 45)
        neg    == s # <<>> /\ s[1] = 45
        ds     == IF signed THEN Tail(s) ELSE s
        z      == StripZeros(ds)
        fits   == \/ Len(z) < 19
                  \/ Len(z) = 19 /\ LexLeq(z, IF neg THEN MinInt64 ELSE MaxInt64)
        v      == IF Len(z) > 9 THEN Big
                  ELSE FoldLeft(LAMBDA a, x : 10 * a + (x - 48), 0, z)
    IN  IF AllDigits(ds) /\ fits
        THEN [ok |-> TRUE,  neg |-> neg /\ v # 0, v |-> v,
              canon |-> IF v = 0 THEN s = <<48>>
                        ELSE s = (IF neg THEN <<45>> ELSE <<>>) \o z]
        ELSE [ok |-> FALSE, neg |-> FALSE,        v |-> 0, canon |-> FALSE]

---------------------------------------------------------------------------
\* Hexadecimal

HexVal(b) == CASE b >= 48 /\ b <= 57  -> b - 48
               [] b >= 97 /\ b <= 102 -> b - 87
               [] b >= 65 /\ b <= 70  -> b - 55
               [] OTHER               -> -1

IsHex(s) == Len(s) % 2 = 0 /\ \A i \in 1..Len(s) : HexVal(s[i]) >= 0

UnHex(s) == [i \in 1..(Len(s) \div 2) |-> 16 * HexVal(s[2 * i - 1]) + HexVal(s[2 * i])]

HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n

Hex(s) == [i \in 1..(2 * Len(s)) |->
             LET b == s[(i + 1) \div 2]
             IN  IF i % 2 = 1 THEN HexDigit(b \div 16) ELSE HexDigit(b % 16)]

\* Upper case hexadecimal digits are accepted on input and come out lower case
=============================================================================
