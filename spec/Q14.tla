-------------------------------- MODULE Q14 --------------------------------
(***************************************************************************)
(* P14: gross premiums by the equivalence principle.  A policy is priced   *)
(* from given actuarial values or from the library's own; the invariant    *)
(* Inv_Priced runs the insurer's fund of the priced policy to its end.     *)
(***************************************************************************)
EXTENDS Portfolio
AtIssue == n = 0 /\ InForce
E0 == Vn(0, 1)
A0 == ValA(0, 1)
a0 == ValA0(0)
IA0 == Ins(Mo, ii, X, S, 0, Years, 1, LAMBDA k : R(k), Zero)
Pr == EqPrem(A0, E0, a0, "0", Po)
Denom(A, E, a, IA) == RSub(RSub(RMul(a, RSub(1, Po.rm)), RSub(Po.im, Po.rm)), IA)
Exp == [initial_policy |-> R(Po.ip), initial_premium |-> RStr(Po.im), renewal_policy |-> R(Po.rp), renewal_premium |-> RStr(Po.rm),
        settlement_policy |-> R(Po.st)]
Mny == Po.b + Po.en + Po.st
Given == IF Po.en = 0 THEN Exp @@ [benefit |-> R(Po.b)] ELSE Exp @@ [benefit |-> R(Po.b), endowment |-> R(Po.en), E |-> RStr(E0)]
AskGiven == (Po.en = 0 \/ RLt(0, E0)) /\ obs' = <<"given">>
  /\ RowD("gross_premium", Given @@ [a |-> RStr(a0), A |-> RStr(A0)], Pr, Mny)
  /\ (IF Endless \/ ~RLt(RDec("0.1"), Denom(A0, E0, a0, IA0)) THEN TRUE ELSE
      RowD("gross_premium", Given @@ [a |-> RStr(a0), A |-> RStr(A0), IA |-> RStr(IA0)], EqPrem(A0, E0, a0, IA0, Po), Mny))
(* one factor given, the other by the twin: whole life, or endowment insurance with A including the endowment *)
TwinPr(A, a) == EqPrem(A, "0", a, "0", Po)
AskTwin == RLt(0, ii) /\ obs' = <<"twin">>
  /\ RowD("gross_premium", Exp @@ [benefit |-> R(Po.b), A |-> RStr(EI(0, 1))], TwinPr(EI(0, 1), a0), Mny)
  /\ RowD("gross_premium", Exp @@ [benefit |-> R(Po.b), a |-> RStr(a0)], TwinPr(EI(0, 1), a0), Mny)
  /\ (IF Closed THEN /\ RowD("gross_premium", Exp @@ [benefit |-> R(Po.b), A |-> RStr(EIc(0, 1)), discrete |-> FALSE], TwinPr(EIc(0, 1), ValA0c(0)), Mny)
                     /\ RowD("gross_premium", Exp @@ [benefit |-> R(Po.b), a |-> RStr(ValA0c(0)), discrete |-> FALSE], TwinPr(EIc(0, 1), ValA0c(0)), Mny)
      ELSE TRUE)
(* priced end to end, from the contract terms and the life's own insurance and annuity values *)
AskOwn == (Po.en = 0 \/ RLt(0, E0)) /\ obs' = <<"own">> /\ RowD("gross_own", [x |-> X, s |-> S, n |-> Po.N, contract |-> ContractOf], Pr, Mny)
Ask == Run /\ AtIssue /\ UNCHANGED <<bi, xs, pl, G, n, sv, fund>> /\ (AskGiven \/ AskTwin \/ AskOwn)
Init == PolicyInit
Next == Year \/ Ask
(* the fund of a policy sold at that premium, premiums returned on death or not, is used up by the endowments *)
RECURSIVE Fund(_, _, _, _)
Fund(k, f, p, ret) ==
  IF k = Years THEN f ELSE
  LET s0 == P(Mo, X, S, k)
      dd == IF Alive(Mo, X, S + k) THEN RMul(s0, QQ(Mo, X, S + k, 0, 1)) ELSE "0"
      inc == IF k = 0 THEN RSub(RMul(p, RSub(1, Po.im)), Po.ip) ELSE RSub(RMul(p, RSub(1, Po.rm)), Po.rp)
      back == IF ret THEN RMul(p, k + 1) ELSE "0"
  IN Fund(k + 1, RSub(RMul(RAdd(f, RMul(s0, inc)), RAdd(1, ii)), RMul(RAdd(Claims, back), dd)), p, ret)
Inv_Priced == (Run /\ AtIssue /\ Finite) =>
  /\ REq(Fund(0, "0", Pr, FALSE), RMul(Po.en, P(Mo, X, S, Years)))
  /\ (RLt(0, Denom(A0, E0, a0, IA0)) => REq(Fund(0, "0", EqPrem(A0, E0, a0, IA0, Po), TRUE), RMul(Po.en, P(Mo, X, S, Years))))
=============================================================================
