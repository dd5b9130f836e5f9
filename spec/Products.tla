------------------------------ MODULE Products ------------------------------
(***************************************************************************)
(* Present values from first principles: every benefit is a function of the*)
(* time of death (or of the survival of a payment date), and every expected*)
(* value is the sum of (present value)^m x probability over the possible   *)
(* years of death -- no actuarial identity or recursion is used here.      *)
(***************************************************************************)
EXTENDS Basis

Sum(lo, hi, f(_)) == IF hi < lo THEN "0" ELSE RSum([j \in 1..(hi - lo + 1) |-> f(lo + j - 1)])
Zero == "0"

(* m-th moment of an insurance paying ben(k) at the end of year k of death *)
(* within years u+1..u+t, and endow at u+t to survivors                    *)
Ins(M, i, x, s, u, t, m, ben(_), endow) ==
  RAdd(Sum(u, u + t - 1, LAMBDA k : RMul(RPow(RMul(ben(k + 1), Vt(i, k + 1)), m), PrK(M, x, s, k))),
       IF RLt(0, endow) THEN RMul(RPow(RMul(endow, Vt(i, u + t)), m), P(M, x, s, u + t)) ELSE Zero)

InsVar(M, i, x, s, u, t, ben(_), endow) ==
  Moment2(Ins(M, i, x, s, u, t, 2, ben, endow), Ins(M, i, x, s, u, t, 1, ben, endow))

InsM(M, i, x, s, u, t, m, ben(_), endow) ==
  IF m = VARIANCE THEN InsVar(M, i, x, s, u, t, ben, endow) ELSE Ins(M, i, x, s, u, t, m, ben, endow)

(* pure endowment *)
PureE(M, i, x, s, t, m, endow) ==
  LET e1 == RMul(RMul(endow, Vt(i, t)), P(M, x, s, t))
      e2 == RMul(RPow(RMul(endow, Vt(i, t)), 2), P(M, x, s, t))
  IN CASE m = 1 -> e1 [] m = 2 -> e2 [] m = VARIANCE -> Moment2(e2, e1)

(* annuity paying ben(k) at time k = u..u+t-1 while alive *)
Ann(M, i, x, s, u, t, ben(_)) ==
  Sum(u, u + t - 1, LAMBDA k : RMul(RMul(ben(k), Vt(i, k)), P(M, x, s, k)))

(* present value at death in curtate year k of a t-year unit annuity-due   *)
AnnPV(i, k, t) == Sum(0, (IF k < t - 1 THEN k ELSE t - 1), LAMBDA j : Vt(i, j))
(* its variance, from the distribution of K (death in year t or later pays all t) *)
AnnVar(M, i, x, s, t, b) ==
  LET w(k) == IF k < t - 1 THEN PrK(M, x, s, k) ELSE P(M, x, s, t - 1)
      m1 == Sum(0, t - 1, LAMBDA k : RMul(RMul(b, AnnPV(i, k, t)), w(k)))
      m2 == Sum(0, t - 1, LAMBDA k : RMul(RPow(RMul(b, AnnPV(i, k, t)), 2), w(k)))
  IN Moment2(m2, m1)
(* annuity-immediate: payments at times 1..t *)
AnnImmPV(i, k, t) == Sum(1, (IF k < t THEN k ELSE t), LAMBDA j : Vt(i, j))
AnnImmVar(M, i, x, s, t, b) ==
  LET w(k) == IF k < t THEN PrK(M, x, s, k) ELSE P(M, x, s, t)
      m1 == Sum(0, t, LAMBDA k : RMul(RMul(b, AnnImmPV(i, k, t)), w(k)))
      m2 == Sum(0, t, LAMBDA k : RMul(RPow(RMul(b, AnnImmPV(i, k, t)), 2), w(k)))
  IN Moment2(m2, m1)

(* annuity certain *)
Certain(i, t) == Sum(0, t - 1, LAMBDA j : Vt(i, j))

---------------------------------------------------------------------------
(* continuous versions: inside one year the survival function is linear    *)
(* (udd) or exponential (cfm / constant force), so each year has a closed  *)
(* form.  G0(b,h) = int_0^h e^-br dr, G1(b,h) = int_0^h r e^-br dr.        *)
G0(b, h) == IF REq(b, 0) THEN R(h) ELSE RDiv(RSub(1, RExp(RNeg(RMul(b, h)))), b)
G1(b, h) == IF REq(b, 0) THEN RDiv(RMul(h, h), 2)
            ELSE RDiv(RSub(G0(b, h), RMul(h, RExp(RNeg(RMul(b, h))))), b)

ForceIn(M, x, s, k) == RNeg(RLn(P(M, x, s + k, 1)))      \* cfm force in year k
IsUdd(M) == M.frac = "udd" \/ (M.frac = "law" /\ M.kind = "beta")   \* beta only with alpha = 1

(* int_k^{k+h} (c0 + c1 (tau)) (v^m)^tau f(tau) dtau, tau measured from issue *)
InsPiece(M, i, x, s, k, h, m, c0, c1) ==
  LET dl == RMul(m, Delta(i))
      vk == Vt(i, m * k)
      w  == IF IsUdd(M) THEN QQ(M, x, s, k, 1) ELSE RMul(P(M, x, s, k), ForceIn(M, x, s, k))
      b  == IF IsUdd(M) THEN dl ELSE RAdd(dl, ForceIn(M, x, s, k))
  IN RMul(RMul(vk, w), RAdd(RMul(RAdd(c0, RMul(c1, k)), G0(b, h)), RMul(c1, G1(b, h))))

AnnPiece(M, i, x, s, k, h, c0, c1) ==
  LET dl == Delta(i)
      vk == Vt(i, k)
  IN IF IsUdd(M)
     THEN \* survival P(k) - q r ; need G2 when c1 # 0: by parts through moments
          IF ~Alive(M, x, s + k) THEN Zero ELSE
          LET pk == P(M, x, s, k)
              q  == QQ(M, x, s, k, 1)
              g2 == IF REq(dl, 0) THEN RDiv(RPow(h, 3), 3)
                    ELSE RDiv(RSub(RMul(2, G1(dl, h)), RMul(RPow(h, 2), RExp(RNeg(RMul(dl, h))))), dl)
              a0 == RAdd(c0, RMul(c1, k))
          IN RMul(vk, RSub(RAdd(RMul(RMul(a0, pk), G0(dl, h)), RMul(RMul(c1, pk), G1(dl, h))),
                           RAdd(RMul(RMul(a0, q), G1(dl, h)), RMul(RMul(c1, q), g2))))
     ELSE IF ~Alive(M, x, s + k + 1) THEN Zero      \* cfm: nobody survives the year, all die at its start
     ELSE LET b == RAdd(dl, ForceIn(M, x, s, k))
          IN RMul(RMul(vk, P(M, x, s, k)), RAdd(RMul(RAdd(c0, RMul(c1, k)), G0(b, h)), RMul(c1, G1(b, h))))

(* over [u, u+t], u integer, t rational *)
Pieces(u, t, f(_, _)) ==
  LET n == RFloor(t)
      h == RSub(t, n)
  IN RAdd(Sum(u, u + n - 1, LAMBDA k : f(k, 1)), IF REq(h, 0) THEN Zero ELSE f(u + n, h))

InsC(M, i, x, s, u, t, m, c0, c1) == Pieces(u, t, LAMBDA k, h : InsPiece(M, i, x, s, k, h, m, c0, c1))
AnnC(M, i, x, s, u, t, c0, c1)    == Pieces(u, t, LAMBDA k, h : AnnPiece(M, i, x, s, k, h, c0, c1))
---------------------------------------------------------------------------
(* moments of the future lifetime, limited to t (whole years when curtate) *)
Curt1(M, x, s, t) == Sum(1, t, LAMBDA k : P(M, x, s, k))
Curt2(M, x, s, t) == Sum(1, t, LAMBDA k : RMul((2 * k) - 1, P(M, x, s, k)))
(* the same from the distribution of min(K, t)                             *)
CurtM(M, x, s, t, m) == RAdd(Sum(0, t - 1, LAMBDA k : RMul(RPow(k, m), PrK(M, x, s, k))), RMul(RPow(t, m), P(M, x, s, t)))
(* complete: m-th moment of min(T, t)                                      *)
IsBeta(M) == M.kind = "beta"
BetaComp(M, x, s, t, m) ==
  LET n  == RSub(M.w, RAdd(x, s))
      y  == RMax("0", RSub(1, RDiv(t, n)))
      a1 == RAdd(M.alpha, 1)
      a2 == RAdd(M.alpha, 2)
      i1 == RDiv(RSub(1, RPowR(y, a1)), a1)
      i2 == RDiv(RSub(1, RPowR(y, a2)), a2)
  IN IF m = 1 THEN RMul(n, i1) ELSE RMul(RMul(2, RMul(n, n)), RSub(i1, i2))
(* Simpson's rule, for laws without a closed form                          *)
Simpson(f(_), lo, hi, n) ==
  LET h == RDiv(RSub(hi, lo), 2 * n)
      pt(j) == f(RAdd(lo, RMul(j, h)))
  IN RMul(RDiv(h, 3), RSum([j \in 1..((2 * n) + 1) |->
        RMul(IF j = 1 \/ j = (2 * n) + 1 THEN 1 ELSE IF (j % 2) = 0 THEN 4 ELSE 2, pt(j - 1))]))
Comp(M, x, s, t, m) ==
  CASE IsBeta(M) -> BetaComp(M, x, s, t, m)
    [] M.kind \in {"makeham", "selmu"} ->
         Simpson(LAMBDA z : RRnd(IF m = 1 THEN P(M, x, s, z) ELSE RMul(RMul(2, z), P(M, x, s, z)), 30), 0, t, 8 * RCeil(t))
    [] OTHER -> IF m = 1 THEN AnnC(M, "0", x, s, 0, t, 1, 0) ELSE AnnC(M, "0", x, s, 0, t, 0, 2)
CompM(M, x, s, t, m) == IF m = VARIANCE THEN Moment2(Comp(M, x, s, t, 2), Comp(M, x, s, t, 1)) ELSE Comp(M, x, s, t, m)
CurtMV(M, x, s, t, m) == IF m = VARIANCE THEN Moment2(Curt2(M, x, s, t), Curt1(M, x, s, t))
                         ELSE IF m = 1 THEN Curt1(M, x, s, t) ELSE Curt2(M, x, s, t)
=============================================================================
