------------------------------- MODULE Policy -------------------------------
(***************************************************************************)
(* One insurance policy sold to lives aged [x]+s, followed year by year    *)
(* from issue to maturity.  The state is the insurer's fund per policy     *)
(* sold: gross premiums less expenses go in at the start of each year,     *)
(* claims and their settlement go out at its end.  Policy values, premiums,*)
(* the loss at issue and its moments are defined from the cash flows and   *)
(* the distribution of the year of death; the invariants tie them to the   *)
(* fund (retrospective = prospective reserve) and to each other.           *)
(*                                                                         *)
(* A policy is a record [N term, b death benefit, en endowment, st         *)
(* settlement expense, ip/rp initial/renewal expense per policy, im/rm     *)
(* initial/renewal expense per unit of premium, g premium].                *)
(***************************************************************************)
EXTENDS Worlds
CONSTANTS PolSeq,     \* sequence of <<model, interest, set of <<x, s>>, sequence of policies>>
          MaxYears, NoQuery
VARIABLES bi, xs, pl, G, n, sv, fund, obs
vars == <<bi, xs, pl, G, n, sv, fund, obs>>
Mo == PolSeq[bi][1]
ii == PolSeq[bi][2]
X  == xs[1]
S  == xs[2]
Po == PolSeq[bi][4][pl]
Pol(N, b, en, st, ip, im, rp, rm, g) == [N |-> N, b |-> b, en |-> en, st |-> st, ip |-> ip, im |-> im, rp |-> rp, rm |-> rm, g |-> g]
Net(N, b, en) == Pol(N, b, en, 0, 0, "0", 0, "0", "eq")
Run == obs = NoQuery
One(k) == "1"

(* years the policy can be in force; whole life of a law without limiting age never ends *)
Endless == Po.N = WHOLE /\ Mo.kind = "cforce"
YearsOf(M, x, s, N) == IF N = WHOLE THEN Left(M, x, s) ELSE LET l == IF M.kind \in {"table", "select", "beta"} THEN Left(M, x, s) ELSE N IN IF N < l THEN N ELSE l
Years == IF Endless THEN 1000000 ELSE YearsOf(Mo, X, S, Po.N)
(* values at t of a unit death benefit, unit endowment, unit annuity-due for the rest of the term *)
QY == QQ(Mo, X, S, 0, 1)
ValA(t, m) == IF Endless THEN LET j == RSub(RPow(RAdd(1, ii), m), 1) IN RDiv(QY, RAdd(QY, j))
              ELSE Ins(Mo, ii, X, S + t, 0, Years - t, m, One, Zero)
Vn(t, m) == IF Endless THEN "0" ELSE RMul(RPow(Vt(ii, Years - t), m), P(Mo, X, S + t, Years - t))
ValA0(t) == IF Endless THEN RDiv(RAdd(1, ii), RAdd(QY, ii)) ELSE Ann(Mo, ii, X, S + t, 0, Years - t, One)
EI(t, m) == RAdd(ValA(t, m), Vn(t, m))              \* unit endowment insurance

Claims == R(Po.b + Po.st)
Profit == RSub(RMul(G, RSub(1, Po.rm)), Po.rp)
InitCost == RAdd(Po.ip - Po.rp, RMul(G, RSub(Po.im, Po.rm)))
(* equivalence premium of policy p on the current basis                     *)
EqPrem(A, E, a, IA, p) ==
  RDiv(RAdd(RAdd(RMul(A, p.b + p.st), RMul(E, p.en)), RAdd(RMul(p.rp, a), p.ip - p.rp)),
       RSub(RSub(RMul(a, RSub(1, p.rm)), RSub(p.im, p.rm)), IA))

(* prospective policy value at t: value of outgo less income; initial expenses count at issue only *)
Vpro(t) == RAdd(RSub(RAdd(RMul(Claims, ValA(t, 1)), RMul(Po.en, Vn(t, 1))), RMul(Profit, ValA0(t))),
                IF t = 0 THEN InitCost ELSE "0")
(* loss at t if death comes in the k-th year after it / if the life survives the term *)
LossDeath(t, k) == RAdd(RSub(RMul(Claims, Vt(ii, k + 1)), RMul(Profit, Certain(ii, k + 1))), IF t = 0 THEN InitCost ELSE "0")
LossSurv(t) == RAdd(RSub(RMul(Po.en, Vt(ii, Years - t)), RMul(Profit, Certain(ii, Years - t))), IF t = 0 THEN InitCost ELSE "0")
LossM(t, m) == RAdd(Sum(0, Years - t - 1, LAMBDA k : RMul(RPow(LossDeath(t, k), m), PrK(Mo, X, S + t, k))),
                    RMul(RPow(LossSurv(t), m), P(Mo, X, S + t, Years - t)))
LossVar(t) == Moment2(LossM(t, 2), LossM(t, 1))

PolicyInit ==
  /\ bi \in 1..Len(PolSeq)
  /\ xs \in PolSeq[bi][3]
  /\ pl \in 1..Len(PolSeq[bi][4])
  /\ Alive(PolSeq[bi][1], xs[1], xs[2])
  /\ n = 0 /\ sv = "1" /\ fund = "0" /\ obs = NoQuery
  /\ G = IF Po.g = "eq" THEN EqPrem(ValA(0, 1), Vn(0, 1), ValA0(0), "0", Po) ELSE Po.g
  /\ RLt(0, G)
Year ==
  /\ Run /\ n < Years /\ n < MaxYears
  /\ n' = n + 1
  /\ LET p == P(Mo, X, S + n, 1)
         inc == IF n = 0 THEN RSub(RMul(G, RSub(1, Po.im)), Po.ip) ELSE Profit
     IN /\ sv' = RMul(sv, p)
        /\ fund' = RSub(RMul(RAdd(fund, RMul(sv, inc)), RAdd(1, ii)), RMul(RMul(sv, RSub(1, p)), Claims))
  /\ UNCHANGED <<bi, xs, pl, G, obs>>
InForce == RLt(0, sv)
Finite == ~Endless /\ Mo.kind # "makeham"

Inv_Sv == Run => sv = P(Mo, X, S, n)
Near(a, b) == IF Mo.kind = "makeham" THEN RTol(a, b, RDec("1e-10")) ELSE REq(a, b)
(* the fund is what the prospective reserve asks for, plus the accumulated expected profit at issue *)
Inv_Retro == (Run /\ InForce /\ (~Endless \/ n > 0)) => Near(fund, RSub(RMul(sv, Vpro(n)), RMul(Vpro(0), RPow(RAdd(1, ii), n))))
Inv_Equivalence == (Run /\ n = 0 /\ Po.g = "eq") => Near(Vpro(0), "0")
Inv_Matures == (Run /\ InForce /\ n = Years /\ ~Endless) => Near(Vpro(n), IF n = 0 THEN "0" ELSE R(Po.en))
Inv_Mean == (Run /\ InForce /\ Finite) => REq(Vpro(n), LossM(n, 1))
(* Hattendorff: the variance of the loss is the sum of the variances of the years' losses *)
Inv_Hattendorff == (Run /\ InForce /\ Finite /\ n < Years) =>
  REq(LossVar(n), Sum(n, Years - 1, LAMBDA k :
      LET pk == P(Mo, X, S + n, k - n)
          p1 == IF Alive(Mo, X, S + k) THEN P(Mo, X, S + k, 1) ELSE "0"
          vk1 == IF RLt(0, p1) THEN Vpro(k + 1) ELSE "0"
      IN RMul(RMul(pk, RMul(p1, RSub(1, p1))), RPow(RMul(Vt(ii, k + 1 - n), RSub(Claims, vk1)), 2))))
(* whole life, or an endowment equal to the death claim: loss is linear in Z *)
Linear == Po.N = WHOLE \/ Po.en = Po.b + Po.st
Inv_Linear == (Run /\ InForce /\ Finite /\ n < Years /\ Linear /\ RLt(0, ii)) =>
  REq(LossVar(n), RMul(RPow(RAdd(Claims, RDiv(Profit, Disc(ii))), 2), Moment2(EI(n, 2), EI(n, 1))))
---------------------------------------------------------------------------
(* payable at the moment of death and continuously, where a year has a closed form *)
Closed == Mo.frac = "udd" \/ Mo.kind = "cforce" \/ (Mo.kind = "beta" /\ REq(Mo.alpha, 1))
CForce == Mo.kind = "cforce"
MuC == RNeg(RLn(Mo.p))
ValAc(t, m) == IF Endless THEN RDiv(MuC, RAdd(MuC, RMul(m, Delta(ii)))) ELSE InsC(Mo, ii, X, S + t, 0, R(Years - t), m, 1, 0)
ValA0c(t) == IF Endless THEN RDiv(1, RAdd(MuC, Delta(ii))) ELSE AnnC(Mo, ii, X, S + t, 0, R(Years - t), 1, 0)
EIc(t, m) == RAdd(ValAc(t, m), Vn(t, m))
Inv_TwinC == (Run /\ InForce /\ Closed) => RNear(RAdd(EIc(n, 1), RMul(Delta(ii), ValA0c(n))), 1)
TolC == IF Mo.kind \in {"table", "select"} THEN "5e-6" ELSE "1e-6"
TolV == IF Mo.kind \in {"table", "select"} THEN "1e-5" ELSE "1e-6"     

ContractOf == [premium |-> RStr(G), initial_policy |-> R(Po.ip), initial_premium |-> RStr(Po.im), renewal_policy |-> R(Po.rp),
               renewal_premium |-> RStr(Po.rm), settlement_policy |-> R(Po.st), benefit |-> R(Po.b), endowment |-> R(Po.en), T |-> Po.N]
RowP(k, c, a, e, sc, tol) == Emit([w |-> Mo.id, i |-> RStr(ii), k |-> k, c |-> c, a |-> a, e |-> RStr(e), sc |-> RStr(RMax(1, sc)), tol |-> tol])
RowD(c, a, e, sc) == RowP("", c, a, e, sc, "x")
=============================================================================
