-------------------------------- MODULE Big --------------------------------
(* Naturals beyond TLC's 32-bit integers, as sequences of base-10000 limbs, *)
(* least significant first, without trailing zero limbs.                    *)
EXTENDS Naturals, Sequences, SequencesExt
Base4 == 10000
RECURSIVE BigOf(_)
BigOf(n) == IF n = 0 THEN <<>> ELSE <<n % Base4>> \o BigOf(n \div Base4)
RECURSIVE Carry(_, _)
Carry(ls, c) == IF ls = <<>> THEN BigOf(c)
                ELSE <<(Head(ls) + c) % Base4>> \o Carry(Tail(ls), (Head(ls) + c) \div Base4)
RECURSIVE Trim(_)
Trim(ls) == IF ls # <<>> /\ ls[Len(ls)] = 0 THEN Trim(SubSeq(ls, 1, Len(ls) - 1)) ELSE ls
Max2(a, b) == IF a > b THEN a ELSE b
Limb(b, i) == IF i \in DOMAIN b THEN b[i] ELSE 0
BigAdd(a, b) == Trim(Carry([i \in 1..Max2(Len(a), Len(b)) |-> Limb(a, i) + Limb(b, i)], 0))
RECURSIVE BigMul(_, _)
\* b times a natural of TLC.
BigMul(b, k) == IF k = 0 \/ b = <<>> THEN <<>>
                ELSE IF k < Base4 THEN Trim(Carry([i \in DOMAIN b |-> b[i] * k], 0))
                ELSE BigAdd(BigMul(b, k % Base4), <<0>> \o BigMul(b, k \div Base4))
RECURSIVE Small(_)
\* The number, when it is small enough for TLC.
Small(b) == IF b = <<>> THEN 0 ELSE Head(b) + Base4 * Small(Tail(b))
BigLeq(a, b) ==  \* a <= b
  Len(a) < Len(b) \/ (Len(a) = Len(b) /\ (a = b \/
     \E i \in DOMAIN a : a[i] < b[i] /\ \A j \in (i + 1)..Len(a) : a[j] = b[j]))
=============================================================================
