------------------------------ MODULE RatCheck ------------------------------
(* TLC compares the big-integer overrides (Rat) with the pure definitions    *)
(* (RatDef) on all pairs of small rationals, and checks defining equations   *)
(* of the transcendental functions on them.                                  *)
EXTENDS Rat, RatDef, TLC
Ns == -6..6
Ds == {-4, -3, -1, 1, 2, 3, 5}
VARIABLES a, b
T(p) == Q(p[1], p[2])
Init == a \in Ns \X Ds /\ b \in Ns \X Ds
Next == FALSE /\ UNCHANGED <<a, b>>
Eps == RPow(10, -40)
Close(x, y) == RTol(x, y, Eps)
Arith ==
  /\ RAdd(T(a), T(b)) = T(DAdd(a, b)) /\ RSub(T(a), T(b)) = T(DSub(a, b)) /\ RMul(T(a), T(b)) = T(DMul(a, b))
  /\ (b[1] # 0 => RDiv(T(a), T(b)) = T(DDiv(a, b)))
  /\ (T(a) = T(b)) = DEq(a, b) /\ REq(T(a), T(b)) = DEq(a, b) /\ RLt(T(a), T(b)) = DLt(a, b)
  /\ RLe(T(a), T(b)) = (DLt(a, b) \/ DEq(a, b))
  /\ RMax(T(a), T(b)) = (IF DLt(a, b) THEN T(b) ELSE T(a)) /\ RMin(T(a), T(b)) = (IF DLt(a, b) THEN T(a) ELSE T(b))
  /\ RSum(<<T(a), T(b), T(a)>>) = T(DAdd(DAdd(a, b), a)) /\ RProd(<<T(a), T(b)>>) = T(DMul(a, b))
  /\ RNeg(T(a)) = T(DSub(<<0, 1>>, a))
  /\ RRec(T(a)) = T(a)
Unary ==
  /\ RFloor(T(a)) = DFloor(a) /\ RCeil(T(a)) = -DFloor(DSub(<<0, 1>>, a))
  /\ RIsInt(T(a)) = DEq(a, <<DFloor(a), 1>>)
  /\ \A k \in -3..3 : (a[1] # 0 \/ k >= 0) => RPow(T(a), k) = T(DPow(a, k))
Trans ==
  /\ Close(RMul(RExp(T(a)), RExp(T(b))), RExp(T(DAdd(a, b))))
  /\ Close(RLn(RExp(T(a))), T(a))
  /\ Close(RAdd(RPhi(T(a)), RPhi(RNeg(T(a)))), 1)
  /\ (DLt(a, b) => RLt(RPhi(T(a)), RPhi(T(b))))
  /\ (~DLt(a, <<0, 1>>) =>
        /\ Close(RMul(RSqrt(T(a)), RSqrt(T(a))), T(a))
        /\ (a[1] # 0 => /\ Close(RPowR(T(a), T(b)), RExp(RMul(T(b), RLn(T(a)))))
                        /\ RPowR(RMul(T(a), T(a)), Q(1, 2)) = T(a)))
(* e and Phi(1.96) from independently known digits *)
Known == /\ RTol(RExp(1), RDec("2.718281828459045235360287471352662497757"), RPow(10, -38))
         /\ RTol(RPhi(RDec("1.96")), RDec("0.975002104851779542"), RPow(10, -15))
         /\ RTol(RLn(2), RDec("0.693147180559945309417232121458176568"), RPow(10, -35))
Inv == Arith /\ Unary /\ Trans /\ Known
=============================================================================
