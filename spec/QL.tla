--------------------------------- MODULE QL ---------------------------------
(***************************************************************************)
(* Long covers.  A cohort is followed for decades; at a few of the years   *)
(* it is asked for the values of covers of that length: insurances, annui- *)
(* ties, premiums, lifetimes, annual and continuous, also after a long     *)
(* time since selection and with a broken amount of benefit.               *)
(***************************************************************************)
EXTENDS Cohort
CONSTANT Kind          \* which property asks: "ins", "ann", "prem", "cont", "life"
Bases == <<
  <<TL, Q(1, 20), {<<30, 0>>, <<33, 12>>, <<31, 1>>}, 41>>, <<TL, "0", {<<35, 3>>}, 41>>,
  <<SL, Q(1, 10), {<<50, 0>>, <<51, 1>>, <<50, 11>>}, 30>>,
  <<CF1, Q(1, 25), {<<20, 5>>, <<0, 12>>}, 33>>, <<U100, Q(1, 16), {<<40, 11>>, <<60, 0>>}, 50>> >>
b0 == Q(5, 2)
e0 == Q(3, 2)
Ms == {1, 2, VARIANCE}
Stop == n \in {10, 11, 12, 24, 25, 33} \/ (Extinct /\ n > 0)
Ds == {u \in {1, 11, 12, 23} : u < n}
TermsOf(u) == IF Extinct THEN {n - u, n - u + 12, WHOLE} ELSE {n - u}
Tb(k) == b0
Ask5(k) == R(5 + (7 * k) + (2 * (X + S)))
XS(a) == [x |-> X, s |-> S] @@ a
Out(c, a, e) == Emit(Row(c, XS(a), e, "1e-8"))
OutS(c, a, e, sc) == Emit(Row(c, XS(a), e, "1e-7") @@ [sc |-> RStr(sc)])
En(m, u, en) == InsM(Mo, ii, X, S, u, n - u, m, Tb, en)
AskIns ==
  /\ \A t \in TermsOf(0), m \in Ms : Out("term_insurance", [t |-> t, b |-> RStr(b0), moment |-> m], En(m, 0, Zero))
  /\ \A t \in TermsOf(0), m \in Ms : Out("endowment_insurance", [t |-> t, b |-> RStr(b0), moment |-> m], En(m, 0, b0))
                                   /\ Out("endowment_insurance", [t |-> t, b |-> RStr(b0), endowment |-> RStr(e0), moment |-> m], En(m, 0, e0))
  /\ \A m \in Ms : Out("E_x", [t |-> n, endowment |-> RStr(e0), moment |-> m], PureE(Mo, ii, X, S, n, m, e0))
  /\ (Extinct => \A m \in Ms : Out("whole_life_insurance", [b |-> RStr(b0), moment |-> m], En(m, 0, Zero)))
  /\ \A u \in Ds, m \in Ms : \A t \in TermsOf(u) : Out("deferred_insurance", [u |-> u, t |-> t, b |-> RStr(b0), moment |-> m], En(m, u, Zero))
  /\ \A t \in TermsOf(0) : Out("increasing_insurance", [t |-> t, b |-> RStr(b0)], RMul(b0, acc.IA))
  /\ \A t \in TermsOf(0) \ {WHOLE} : Out("decreasing_insurance", [t |-> t, b |-> RStr(b0)], RMul(b0, RSub(RMul(t + 1, acc.A), acc.IA)))
  /\ \A u \in {0} \union Ds, m \in {1, 2} :
        Out("A_x", [u |-> u, t |-> n - u, moment |-> m, endowment |-> RStr(e0), benefit |-> <<5, 7, 2>>], Ins(Mo, ii, X, S, u, n - u, m, Ask5, e0))
AskAnn ==
  /\ \A t \in TermsOf(0) : Out("temporary_annuity", [t |-> t, b |-> RStr(b0)], RMul(b0, acc.a))
                         /\ OutS("temporary_annuity", [t |-> t, b |-> RStr(b0), variance |-> TRUE], AnnVar(Mo, ii, X, S, n, b0), 100)
                         /\ Out("immediate_annuity", [t |-> t, b |-> RStr(b0)], RMul(b0, RAdd(RSub(acc.a, 1), RMul(acc.v, acc.S))))
                         /\ OutS("immediate_annuity", [t |-> t, b |-> RStr(b0), variance |-> TRUE], AnnImmVar(Mo, ii, X, S, n, b0), 100)
                         /\ Out("increasing_annuity", [t |-> t, b |-> RStr(b0)], RMul(b0, acc.Ia))
  /\ (Extinct => Out("whole_life_annuity", [b |-> RStr(b0)], RMul(b0, acc.a))
              /\ OutS("whole_life_annuity", [b |-> RStr(b0), variance |-> TRUE], AnnVar(Mo, ii, X, S, n, b0), 100))
  /\ \A u \in Ds : \A t \in TermsOf(u) :
        /\ Out("deferred_annuity", [u |-> u, t |-> t, b |-> RStr(b0)], Ann(Mo, ii, X, S, u, n - u, Tb))
        /\ Out("certain_life_annuity", [u |-> u, t |-> t, b |-> RStr(b0)], RAdd(RMul(b0, Certain(ii, u)), Ann(Mo, ii, X, S, u, n - u, Tb)))
  /\ \A t \in TermsOf(0) \ {WHOLE} : Out("decreasing_annuity", [t |-> t, b |-> RStr(b0)], RMul(b0, RSub(RMul(t + 1, acc.a), acc.Ia)))
  /\ \A u \in {0} \union Ds : Out("a_x", [u |-> u, t |-> n - u, benefit |-> <<5, 7, 2>>], Ann(Mo, ii, X, S, u, n - u, Ask5))
An(u, t) == Ann(Mo, ii, X, S, u, t, One)
Ia(t) == Ins(Mo, ii, X, S, 0, t, 1, LAMBDA k : R(k), Zero)
Prem(val, m) == RDiv(RAdd(val, Q(1, 4)), An(0, m))
AskPrem ==
  LET c == [b |-> RStr(b0), initial_cost |-> "0.25"] IN
  /\ Out("net_premium", c @@ [t |-> n, endowment |-> RStr(e0)], Prem(En(1, 0, e0), n))
  /\ \A m \in Ds : Out("net_premium", c @@ [t |-> n, n |-> m, endowment |-> RStr(e0)], Prem(En(1, 0, e0), m))
  /\ \A u \in Ds, t \in {n, WHOLE} : (t = n \/ Extinct) =>
        LET t1 == IF t = WHOLE THEN WHOLE ELSE n - u IN
        /\ Out("net_premium", c @@ [t |-> t1, u |-> u], Prem(En(1, u, Zero), u))
        /\ Out("net_premium", c @@ [t |-> t1, u |-> u, annuity |-> TRUE], Prem(RMul(b0, An(u, n - u)), u))
        /\ (t = n => Out("net_premium", c @@ [t |-> t1, u |-> u, endowment |-> RStr(e0)], Prem(En(1, u, e0), u)))
        /\ (RLt(Ia(u), An(0, u)) => Out("net_premium", c @@ [t |-> t1, u |-> u, return_premium |-> TRUE], RDiv(RAdd(En(1, u, Zero), Q(1, 4)), RSub(An(0, u), Ia(u)))))
AskLife ==
  /\ \A t \in TermsOf(0) : Out("e_x", [t |-> t, curtate |-> TRUE, moment |-> 1], CurtM(Mo, X, S, n, 1))
                         /\ Out("e_x", [t |-> t, curtate |-> TRUE, moment |-> 2], CurtM(Mo, X, S, n, 2))
                         /\ Out("e_x", [t |-> t, curtate |-> TRUE, moment |-> VARIANCE], Moment2(CurtM(Mo, X, S, n, 2), CurtM(Mo, X, S, n, 1)))
  /\ \A u \in Ds : Emit(Row("q_x", XS([t |-> n - u, u |-> u]), RSub(P(Mo, X, S, u), P(Mo, X, S, n)), "1e-9"))
  /\ Emit(Row("p_x", XS([t |-> n]), acc.S, "1e-9"))
(* payable at the moment of death, paid continuously *)
RowK(c, a, e, sc) == Emit([w |-> Mo.id, i |-> RStr(ii), c |-> c, a |-> XS([discrete |-> FALSE] @@ a), e |-> RStr(e), sc |-> RStr(sc),
                          tol |-> IF Mo.kind \in {"table", "select"} THEN "5e-6" ELSE "1e-7"])
Cm(u, m) == InsC(Mo, ii, X, S, u, R(n - u), m, 1, 0)
CM(u, m, en) ==
  LET f(k) == RAdd(RMul(RPow(b0, k), Cm(u, k)), RMul(RMul(RPow(en, k), Vt(ii, k * n)), acc.S))
  IN IF m = VARIANCE THEN Moment2(f(2), f(1)) ELSE f(m)
Ca(u) == AnnC(Mo, ii, X, S, u, R(n - u), 1, 0)
(* without interest the density of TL is a straight staircase, on which the  *)
(* library's quadrature takes an inexact value for converged (known finding) *)
Stairs == Mo.kind = "table" /\ REq(ii, 0)
AskStairs == Extinct => Emit([w |-> Mo.id, i |-> "0", c |-> "whole_life_insurance", k |-> "stairs", a |-> XS([discrete |-> FALSE]), e |-> "1", sc |-> "1", tol |-> "5e-6"])
AskCont ==
  /\ \A t \in TermsOf(0), m \in Ms : RowK("term_insurance", [t |-> t, b |-> RStr(b0), moment |-> m], CM(0, m, Zero), 6)
                                   /\ RowK("endowment_insurance", [t |-> t, b |-> RStr(b0), endowment |-> RStr(e0), moment |-> m], CM(0, m, e0), 6)
                                   /\ RowK("endowment_insurance", [t |-> t, b |-> RStr(b0), moment |-> m], CM(0, m, b0), 6)
  /\ \A u \in Ds, m \in Ms : \A t \in TermsOf(u) : RowK("deferred_insurance", [u |-> u, t |-> t, b |-> RStr(b0), moment |-> m], CM(u, m, Zero), 6)
  /\ \A t \in TermsOf(0) : RowK("temporary_annuity", [t |-> t, b |-> RStr(b0)], RMul(b0, Ca(0)), 3)
  /\ \A u \in Ds : \A t \in TermsOf(u) : RowK("deferred_annuity", [u |-> u, t |-> t, b |-> RStr(b0)], RMul(b0, Ca(u)), 3)
  /\ (Extinct => RowK("whole_life_annuity", [b |-> RStr(b0)], RMul(b0, Ca(0)), 3)
             /\ \A m \in Ms : RowK("whole_life_insurance", [b |-> RStr(b0), moment |-> m], CM(0, m, Zero), 6))
  /\ \A t \in TermsOf(0) : RowK("increasing_insurance", [t |-> t, b |-> RStr(b0)], RMul(b0, InsC(Mo, ii, X, S, 0, R(n), 1, 0, 1)), 30)
                         /\ RowK("increasing_annuity", [t |-> t, b |-> RStr(b0)], RMul(b0, AnnC(Mo, ii, X, S, 0, R(n), 0, 1)), 30)
Ask == Run /\ Stop /\ UNCHANGED <<bi, xs, n, acc>> /\ obs' = <<Kind>>
  /\ ((CASE Kind = "ins" -> AskIns [] Kind = "ann" -> AskAnn [] Kind = "prem" -> AskPrem [] Kind = "life" -> AskLife
        [] Kind = "cont" -> (IF Stairs THEN AskStairs ELSE AskCont)) = TRUE)
Init == CohortInit
Next == Year \/ Ask
(* a long cover is a short one and then, for the survivors, another *)
Inv_Split == (Run /\ n > 12 /\ RLt(0, P(Mo, X, S, 12))) =>
  REq(acc.A, RAdd(Ins(Mo, ii, X, S, 0, 12, 1, One, Zero), RMul(RMul(Vt(ii, 12), P(Mo, X, S, 12)), Ins(Mo, ii, X, S + 12, 0, n - 12, 1, One, Zero))))
BasesX == Bases   \* substituted through this: TLC caches Bases as a constant
ASSUME DefAll([j \in 1..Len(Bases) |-> Bases[j][1]])
=============================================================================
