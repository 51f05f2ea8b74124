------------------------------- MODULE MCVarint -------------------------------
(* The variable-length integer scheme over all numbers up to Bits bits and their neighbours at every  *)
(* digit boundary of the wider types, and over all short byte sequences.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Bits

W == INSTANCE Wire WITH Types <- <<>>, DevTupleSize <- FALSE, DevSkip <- FALSE

Kinds == W!VarInts
\* numbers as digits: small ones, and 128^n - 1, 128^n, 128^n + 1 for the wider types
Edge(n) == {[i \in 1..n |-> 127], [i \in 1..(n + 1) |-> IF i = n + 1 THEN 1 ELSE 0],
            [i \in 1..(n + 1) |-> IF i \in {1, n + 1} THEN 1 ELSE 0]}
MaxDigits(k) == W!MaxBytes(k)
Fits(k, m) == Len(m) < MaxDigits(k) \/ (Len(m) = MaxDigits(k) /\ m[Len(m)] <= W!TopDigit(k))
Mags == {W!Digits(n) : n \in 0..(2 ^ Bits - 1)} \cup UNION {Edge(n) : n \in 1..18}

VARIABLES k, v
vars == <<k, v>>
Init == /\ k \in Kinds
        /\ v \in [s : {0, 1}, m : Mags]
        /\ (v.s = 1 => k \in W!Signed /\ v.m # <<>>)
        /\ Fits(k, W!IntDigits(k, v))
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Enc == W!Varint(W!IntDigits(k, v))
Minimal == /\ Len(Enc) <= W!MaxBytes(k)
           /\ Len(Enc) = W!VarintSize(W!IntDigits(k, v))
           /\ (Len(Enc) > 1 => Enc[Len(Enc)] # 0)
           /\ \A i \in 1..(Len(Enc) - 1) : Enc[i] >= 128
           /\ Enc[Len(Enc)] < 128
Inverse == LET r == W!DecVarint(k, Enc \o <<5>>, 1, Len(Enc) + 2)
           IN  r.st = "ok" /\ r.p = Len(Enc) + 1 /\ W!IntValue(k, r.v) = v
SmallStaysSmall == k \in W!Signed /\ Len(v.m) <= 1 /\ (v.m = <<>> \/ v.m[1] < 64) => Len(Enc) = 1
\* without an end
NoEnd == \A i \in 0..(Len(Enc) - 1) : W!DecVarint(k, SubSeq(Enc, 1, i), 1, i + 1).st = "err"
=============================================================================
