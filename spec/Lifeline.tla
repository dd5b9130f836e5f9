------------------------------ MODULE Lifeline ------------------------------
(***************************************************************************)
(* One life aged [x]+s followed quarter of a year by quarter of a year.    *)
(* The state keeps the survival probability and the accumulated deaths as  *)
(* they build up; the invariants say they agree with the model's lives,    *)
(* density and force.  Extensions add the queries asked in each state.     *)
(***************************************************************************)
EXTENDS Worlds
CONSTANTS ModelSeq,    \* sequence of <<model, set of <<x, s>>, horizon in quarters>>
          NoQuery
VARIABLES mi, xs, k4, acc, obs
vars == <<mi, xs, k4, acc, obs>>
Mo == ModelSeq[mi][1]
X == xs[1]
S == xs[2]
T(k) == Q(k, 4)
tt == T(k4)                       \* time since the start, a rational
Whole == (k4 % 4) = 0
Yrs == k4 \div 4

LifeInit == /\ mi \in 1..Len(ModelSeq)
            /\ xs \in ModelSeq[mi][2]
            /\ Alive(ModelSeq[mi][1], xs[1], xs[2])
            /\ k4 = 0 /\ acc = [S |-> "1", dead |-> "0", yr |-> "1"] /\ obs = NoQuery
Run == obs = NoQuery
(* three months pass *)
Tick == /\ Run
        /\ k4 < ModelSeq[mi][3]
        /\ RLt(0, acc.S)
        /\ k4' = k4 + 1
        /\ LET p == P(Mo, X, RAdd(S, tt), Q(1, 4))
           IN acc' = [S |-> RMul(acc.S, p), dead |-> RAdd(acc.dead, RMul(acc.S, RSub(1, p))),
                      \* survival at the start of the current year of age
                      yr |-> IF ((k4 + 1) % 4) = 0 THEN RMul(acc.S, p) ELSE acc.yr]
        /\ UNCHANGED <<mi, xs, obs>>
Living == RLt(0, acc.S)

Inv_Total    == Run => RNear(RAdd(acc.S, acc.dead), 1)
Inv_Survival == Run => RNear(acc.S, P(Mo, X, S, tt)) /\ RLe(0, acc.S) /\ RLe(acc.S, 1)
HasForce == Mo.frac = "cfm" => RLt(0, LInt(Mo, X, RFloor(RAdd(S, tt)) + 1))
Inv_Force    == (Run /\ Living /\ HasForce) => RLe(0, Mu(Mo, X, RAdd(S, tt)))
(* inside a year of age: uniform deaths or constant force *)
Inv_Frac     == (Run /\ Living) =>
   LET k == RFloor(RAdd(S, tt))
       r == RSub(RAdd(S, tt), k)
       p1 == RDiv(LInt(Mo, X, k + 1), LInt(Mo, X, k))
   IN (Mo.frac = "udd" => RNear(acc.S, RMul(acc.yr, RSub(1, RMul(r, RSub(1, p1))))))
      /\ ((Mo.frac = "cfm") => RNear(acc.S, RMul(acc.yr, RPowR(p1, r))))
(* deaths of the next quarter lie between the density's bounds (force monotone in our models) *)
Inv_Density  == (Run /\ Living /\ HasForce /\ RLt(0, P(Mo, X, S, RAdd(tt, Q(1, 4))))) =>
   LET dq == QQ(Mo, X, S, tt, Q(1, 4))
       f1 == F(Mo, X, S, tt)
       \* left limit of the density at the end of the quarter, by the model's own year
       e  == RAdd(S, RAdd(tt, Q(1, 8)))
       fm == RMul(RDiv(L(Mo, X, e), L(Mo, X, S)), Mu(Mo, X, e))
   IN (Mo.frac = "udd" => RNear(dq, RMul(f1, Q(1, 4))))
      /\ (Mo.frac # "udd" => RTol(dq, RMul(fm, Q(1, 4)), Q(1, 100)))

Row(c, a, e, tol) == [w |-> Mo.id, c |-> c, a |-> a, e |-> RStr(e), tol |-> tol]
RowK(k, c, a, e, tol) == [w |-> Mo.id, k |-> k, c |-> c, a |-> a, e |-> RStr(e), tol |-> tol]
=============================================================================
