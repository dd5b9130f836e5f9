------------------------------- MODULE Cohort -------------------------------
(***************************************************************************)
(* A cohort of lives aged [x]+s followed year by year.  The state carries  *)
(* retrospective accumulators updated one year at a time; the invariants   *)
(* say they agree with the first-principles definitions of Products.tla    *)
(* and satisfy the actuarial identities.  Q*.tla modules add the queries   *)
(* that may be asked of the library in each state.                         *)
(***************************************************************************)
EXTENDS Worlds

CONSTANTS BasisSeq,    \* sequence of <<model, interest rate, set of <<x, s>>, horizon>>
          NoQuery

VARIABLES bi,   \* index of the basis
          xs,   \* <<x, s>>
          n,    \* years since the start
          acc,  \* accumulators
          obs   \* the query asked in this state, NoQuery while the cohort runs
vars == <<bi, xs, n, acc, obs>>

Mo == BasisSeq[bi][1]
ii == BasisSeq[bi][2]
X  == xs[1]
S  == xs[2]

Acc0 == [S |-> "1", v |-> "1", A |-> "0", A2 |-> "0", IA |-> "0", a |-> "0", Ia |-> "0", e |-> "0"]

CohortInit ==
  /\ bi \in 1..Len(BasisSeq)
  /\ xs \in BasisSeq[bi][3]
  /\ Alive(BasisSeq[bi][1], xs[1], xs[2])
  /\ n = 0
  /\ acc = Acc0
  /\ obs = NoQuery

Horizon == BasisSeq[bi][4]

(* one policy year passes: premiums/payments due at its start, deaths at its end *)
Year ==
  /\ obs = NoQuery
  /\ RLt(0, acc.S)
  /\ n < Horizon
  /\ n' = n + 1
  /\ LET q  == IF Alive(Mo, X, S + n) THEN QQ(Mo, X, S + n, 0, 1) ELSE "1"
         dd == RMul(acc.S, q)
         v1 == RMul(acc.v, Vf(ii))
     IN acc' = [S  |-> RSub(acc.S, dd),
                v  |-> v1,
                A  |-> RAdd(acc.A, RMul(v1, dd)),
                A2 |-> RAdd(acc.A2, RMul(RMul(v1, v1), dd)),
                IA |-> RAdd(acc.IA, RMul(n + 1, RMul(v1, dd))),
                a  |-> RAdd(acc.a, RMul(acc.v, acc.S)),
                Ia |-> RAdd(acc.Ia, RMul(n + 1, RMul(acc.v, acc.S))),
                e  |-> RAdd(acc.e, RSub(acc.S, dd))]
  /\ UNCHANGED <<bi, xs, obs>>

Ended == ~RLt(0, acc.S) \/ n = Horizon
Extinct == ~RLt(0, acc.S)

One(k) == "1"
Run == obs = NoQuery

Inv_Survival == Run => REq(acc.S, P(Mo, X, S, n)) /\ RLe(0, acc.S) /\ RLe(acc.S, 1)
Inv_Insurance == Run => REq(acc.A, Ins(Mo, ii, X, S, 0, n, 1, One, Zero))
Inv_Moment2  == Run => REq(acc.A2, Ins(Mo, ii, X, S, 0, n, 2, One, Zero))
Inv_Jensen   == Run => RLe(RMul(acc.A, acc.A), acc.A2) /\ RLe(acc.A2, acc.A)
Inv_Annuity  == Run => REq(acc.a, Ann(Mo, ii, X, S, 0, n, One))
(* endowment insurance and annuity-due: A + v^n p + d a = 1                 *)
Inv_Twin     == Run => REq(RAdd(RAdd(acc.A, RMul(acc.v, acc.S)), RMul(Disc(ii), acc.a)), 1)
(* (IA) = a - d (Ia) - n v^n p                                              *)
Inv_IncTwin  == Run => REq(acc.IA, RSub(RSub(acc.a, RMul(Disc(ii), acc.Ia)), RMul(n, RMul(acc.v, acc.S))))
(* life annuity = expectation of the annuity certain up to death            *)
Inv_Certain  == (Run /\ n > 0) =>
  REq(acc.a, RAdd(Sum(0, n - 2, LAMBDA k : RMul(AnnPV(ii, k, n), PrK(Mo, X, S, k))),
                  RMul(AnnPV(ii, n - 1, n), P(Mo, X, S, n - 1))))
(* variance of the annuity = variance of the endowment insurance / d^2      *)
Inv_VarTwin  == (Run /\ n > 0 /\ RLt(0, ii)) =>
  REq(RMul(AnnVar(Mo, ii, X, S, n, R(1)), RPow(Disc(ii), 2)),
      InsVar(Mo, ii, X, S, 0, n, One, R(1)))
(* moving the selection age does not matter in an aggregate model           *)
Inv_Chain    == (Run /\ RLt(0, acc.S)) => REq(RMul(acc.S, P(Mo, X, S + n, 1)), P(Mo, X, S, n + 1))

Row(c, a, e, tol) == [w |-> Mo.id, i |-> RStr(ii), c |-> c, a |-> a, e |-> RStr(e), tol |-> tol]
=============================================================================
