------------------------------- MODULE BigNat -------------------------------
(***************************************************************************)
(* Natural numbers of any size.  TLC's integers have 32 bits, while the    *)
(* numbers of this system are 32-bit image dimensions and machine words of *)
(* 64 bits (strides, buffer lengths) and their products and sums, which    *)
(* must not be computed modulo anything.                                   *)
(*                                                                         *)
(* A number is the sequence of its digits in base 1024, least significant  *)
(* first, without trailing zeroes; zero is the empty sequence.  The        *)
(* harness writes numbers in this form into the traces it records.         *)
(***************************************************************************)
EXTENDS Integers, Sequences

Base == 1024

Digit(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

RECURSIVE Strip(_)
Strip(a) == IF a = <<>> \/ a[Len(a)] # 0 THEN a ELSE Strip(SubSeq(a, 1, Len(a) - 1))

IsBig(a) == /\ \A i \in 1..Len(a) : a[i] \in 0..(Base - 1)
            /\ a = <<>> \/ a[Len(a)] # 0

\* The number of a TLC integer
RECURSIVE Big(_)
Big(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o Big(n \div Base)

\* The TLC integer of a number below 2^30
IsSmall(a) == Len(a) <= 3
Small(a) == Digit(a, 1) + Base * (Digit(a, 2) + Base * Digit(a, 3))

RECURSIVE AddFrom(_, _, _, _, _)
AddFrom(a, b, i, n, carry) ==
  IF i > n
  THEN IF carry = 0 THEN <<>> ELSE <<carry>>
  ELSE LET s == Digit(a, i) + Digit(b, i) + carry
       IN  <<s % Base>> \o AddFrom(a, b, i + 1, n, s \div Base)

BigAdd(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a ELSE
  AddFrom(a, b, 1, IF Len(a) > Len(b) THEN Len(a) ELSE Len(b), 0)

\* a - b, for b <= a
RECURSIVE SubFrom(_, _, _, _)
SubFrom(a, b, i, borrow) ==
  IF i > Len(a) THEN <<>>
  ELSE LET s == a[i] - Digit(b, i) - borrow
       IN  <<s % Base>> \o SubFrom(a, b, i + 1, IF s < 0 THEN 1 ELSE 0)

BigSub(a, b) == Strip(SubFrom(a, b, 1, 0))

\* Sum of the products of the digits that meet at position k
RECURSIVE Column(_, _, _, _)
Column(a, b, k, i) ==
  IF i > Len(a) THEN 0
  ELSE a[i] * Digit(b, IF k + 1 - i >= 1 THEN k + 1 - i ELSE Len(b) + 1)
       + Column(a, b, k, i + 1)

RECURSIVE MulFrom(_, _, _, _)
MulFrom(a, b, k, carry) ==
  IF k > Len(a) + Len(b) - 1
  THEN Big(carry)
  ELSE LET s == Column(a, b, k, 1) + carry
       IN  <<s % Base>> \o MulFrom(a, b, k + 1, s \div Base)

BigMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE MulFrom(a, b, 1, 0)

RECURSIVE LeqFrom(_, _, _)
LeqFrom(a, b, i) ==
  IF i = 0 THEN TRUE
  ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LeqFrom(a, b, i - 1)

BigLeq(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LeqFrom(a, b, Len(a))

RECURSIVE HalfFrom(_, _)
HalfFrom(a, i) ==
  IF i > Len(a) THEN <<>>
  ELSE <<(a[i] \div 2) + (Digit(a, i + 1) % 2) * (Base \div 2)>> \o HalfFrom(a, i + 1)

BigHalf(a) == Strip(HalfFrom(a, 1))
BigOdd(a) == Digit(a, 1) % 2 = 1

\* Quotient of a division, restoring, by doubling the divisor
RECURSIVE DivStep(_, _)
DivStep(a, d) ==          \* <<quotient, remainder>>
  IF ~BigLeq(d, a) THEN <<<<>>, a>>
  ELSE LET up == DivStep(a, BigAdd(d, d))
           q  == BigAdd(up[1], up[1])
       IN  IF BigLeq(d, up[2])
           THEN <<BigAdd(q, <<1>>), BigSub(up[2], d)>>
           ELSE <<q, up[2]>>

BigDiv(a, d) == DivStep(a, d)[1]

\* a / d rounded to the nearest integer, halves upward
RoundDiv(a, d) == BigDiv(BigAdd(BigAdd(a, a), d), BigAdd(d, d))

RECURSIVE BigPow2(_)
BigPow2(n) == IF n < 10 THEN <<2^n>> ELSE <<0>> \o BigPow2(n - 10)

MaxWord == BigSub(BigPow2(64), <<1>>)          \* the largest machine word
MaxU32  == BigSub(BigPow2(32), <<1>>)          \* the largest image dimension
=============================================================================
