------------------------------- MODULE RatDef -------------------------------
(* The mathematical meaning of the rational operators of Rat.tla, as pairs   *)
(* <<numerator, denominator>> of integers with denominator # 0.              *)
EXTENDS Integers
DAdd(a, b) == <<(a[1] * b[2]) + (b[1] * a[2]), a[2] * b[2]>>
DSub(a, b) == <<(a[1] * b[2]) - (b[1] * a[2]), a[2] * b[2]>>
DMul(a, b) == <<a[1] * b[1], a[2] * b[2]>>
DDiv(a, b) == <<a[1] * b[2], a[2] * b[1]>>
DEq(a, b)  == a[1] * b[2] = b[1] * a[2]
DLt(a, b)  == LET n == (a[1] * b[2]) - (b[1] * a[2])
                  d == a[2] * b[2]
              IN IF d > 0 THEN n < 0 ELSE n > 0
RECURSIVE DPow(_, _)
DPow(a, k) == IF k = 0 THEN <<1, 1>> ELSE IF k > 0 THEN DMul(a, DPow(a, k - 1)) ELSE DPow(<<a[2], a[1]>>, -k)
(* floor: the integer f with f <= a < f + 1 *)
DFloor(a) == CHOOSE f \in -100..100 : ~DLt(a, <<f, 1>>) /\ DLt(a, <<f + 1, 1>>)
=============================================================================
