------------------------------- MODULE Basis -------------------------------
(***************************************************************************)
(* The valuation basis: a survival model M and an annual effective rate i. *)
(*                                                                         *)
(* A survival model is a record                                            *)
(*   kind  "table"  lives l[1], l[2], ... at ages x0, x0+1, ..., 0 after;  *)
(*                  the model does not depend on when a life was selected  *)
(*         "select" rows[y-x0+1][d+1] lives [y]+d, last column ultimate    *)
(*         "cforce" l(y) = p^y        (constant force, p = e^-mu)          *)
(*         "beta"   l(y) = (w - y)^alpha                                   *)
(*         "makeham" l(y) = exp(-A y - B c^y / ln c) up to rounding        *)
(*   frac  "udd" / "cfm" / "law": how lives behave inside a year           *)
(* Everything the library computes is a functional of L(M, x, d): expected *)
(* number of lives d years after selection at age x.                       *)
(***************************************************************************)
EXTENDS Rat

WHOLE == -999
VARIANCE == -2

NoSel == [kind |-> "none"]

(* lives at an integer duration d >= 0 after selection at integer age x    *)
LInt(M, x, d) ==
  CASE M.kind = "table" ->
         LET j == x + d - M.x0 + 1
         IN IF j < 1 \/ j > Len(M.l) THEN "0" ELSE R(M.l[j])
    [] M.kind = "select" ->
         LET e  == IF d > M.per THEN M.per ELSE d
             y  == x + (d - e)
             j  == y - M.x0 + 1
         IN IF j < 1 \/ j > Len(M.rows) THEN "0" ELSE R(M.rows[j][e + 1])
    [] M.kind = "cforce" -> RPow(M.p, x + d)
    [] M.kind = "beta" ->
         IF x + d >= M.w THEN "0" ELSE RPowR(RSub(M.w, x + d), M.alpha)
    [] M.kind = "selmu" ->   \* force A + B x + C d at duration d since selection at x
         RExp(RNeg(RAdd(RMul(RAdd(M.A, RMul(M.B, x)), d), RMul(RDiv(M.C, 2), d * d))))
    [] M.kind = "makeham" ->
         LET y == x + d
             h == RAdd(RMul(M.A, y), RMul(M.B, RDiv(RSub(RPow(M.c, y), RPow(M.c, M.x0)), RLn(M.c))))
         IN RRnd(RExp(RNeg(RSub(h, RMul(M.A, M.x0)))), 50)

(* lives at any rational duration                                          *)
L(M, x, d) ==
  IF RIsInt(d) THEN LInt(M, x, RFloor(d))
  ELSE LET k == RFloor(d)
           r == RSub(d, k)
       IN CASE M.frac = "udd" -> RAdd(RMul(LInt(M, x, k), RSub(1, r)), RMul(LInt(M, x, k + 1), r))
            [] M.frac = "cfm" -> RMul(RPowR(LInt(M, x, k), RSub(1, r)), RPowR(LInt(M, x, k + 1), r))
            [] M.frac = "law" ->
                 (CASE M.kind = "cforce" -> RPowR(M.p, RAdd(x, d))
                    [] M.kind = "beta" -> IF RLe(M.w, RAdd(x, d)) THEN "0" ELSE RPowR(RSub(M.w, RAdd(x, d)), M.alpha)
                    [] M.kind = "selmu" ->
                         RExp(RNeg(RAdd(RMul(RAdd(M.A, RMul(M.B, x)), d), RMul(RDiv(M.C, 2), RMul(d, d)))))
                    [] M.kind = "makeham" ->
                         LET y == RAdd(x, d)
                             h == RAdd(RMul(M.A, y), RMul(M.B, RDiv(RSub(RPowR(M.c, y), RPow(M.c, M.x0)), RLn(M.c))))
                         IN RRnd(RExp(RNeg(RSub(h, RMul(M.A, M.x0)))), 50))

Alive(M, x, d) == RLt(0, L(M, x, d))

(* probability that a life aged [x]+s survives t more years                *)
P(M, x, s, t) == RDiv(L(M, x, RAdd(s, t)), L(M, x, s))
(* ... survives u years and dies within the t years after                  *)
QQ(M, x, s, u, t) == RDiv(RSub(L(M, x, RAdd(s, u)), L(M, x, RAdd(RAdd(s, u), t))), L(M, x, s))
(* curtate future lifetime distribution                                    *)
PrK(M, x, s, k) == QQ(M, x, s, k, 1)

(* force of mortality at duration d (right limit inside a year of age)      *)
Mu(M, x, d) ==
  LET k == RFloor(d)
      q == RSub(1, RDiv(LInt(M, x, k + 1), LInt(M, x, k)))
      r == RSub(d, k)
  IN CASE M.frac = "udd" -> RDiv(q, RSub(1, RMul(r, q)))
       [] M.frac = "cfm" -> RNeg(RLn(RSub(1, q)))
       [] M.frac = "law" ->
            (CASE M.kind = "cforce" -> RNeg(RLn(M.p))
               [] M.kind = "beta" -> RDiv(M.alpha, RSub(M.w, RAdd(x, d)))
               [] M.kind = "selmu" -> RAdd(RAdd(M.A, RMul(M.B, x)), RMul(M.C, d))
               [] M.kind = "makeham" -> RAdd(M.A, RMul(M.B, RPowR(M.c, RAdd(x, d)))))
(* density of the lifetime of [x]+s at time t                              *)
F(M, x, s, t) == RMul(P(M, x, s, t), Mu(M, x, RAdd(s, t)))

(* number of whole years until no life is left, from [x]+s                 *)
RECURSIVE Left(_, _, _)
Left(M, x, s) == IF ~Alive(M, x, s) THEN 0 ELSE 1 + Left(M, x, s + 1)

---------------------------------------------------------------------------
(* interest                                                                *)
Vf(i)      == RDiv(1, RAdd(1, i))                \* annual discount factor
Disc(i)    == RDiv(i, RAdd(1, i))                \* annual discount rate d
Delta(i)   == RLn(RAdd(1, i))                    \* force of interest
Vt(i, t)   == RPowR(Vf(i), t)
(* m-thly nominal rates *)
Im(i, m)   == RMul(m, RSub(RPowR(RAdd(1, i), Q(1, m)), 1))
Dm(i, m)   == RMul(m, RSub(1, RPowR(RAdd(1, i), Q(-1, m))))

Moment2(m2, m1) == RSub(m2, RMul(m1, m1))
=============================================================================
