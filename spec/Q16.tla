-------------------------------- MODULE Q16 --------------------------------
(***************************************************************************)
(* P16: gross premium policy values and the variance of the gross loss.    *)
(***************************************************************************)
EXTENDS Portfolio
(* the library treats these two kinds of policy by the twin annuity, which needs a positive rate *)
Shortcut == Po.N = WHOLE \/ Po.en = Po.b + Po.st
Valid == InForce /\ (RLt(0, ii) \/ ~Shortcut)
Pk == Po.b + Po.en + Po.st + 1000
Arg == [x |-> X, s |-> S, t |-> n, n |-> Po.N, contract |-> ContractOf]
Plain == Po.b = 1 /\ Po.en = 0 /\ Po.st = 0 /\ Po.ip = 0 /\ Po.rp = 0 /\ REq(Po.im, 0) /\ REq(Po.rm, 0) /\ REq(G, 1)
VproC(t) == RAdd(RSub(RAdd(RMul(Claims, ValAc(t, 1)), RMul(Po.en, Vn(t, 1))), RMul(Profit, ValA0c(t))), IF t = 0 THEN InitCost ELSE "0")
VarOf(d, e2, e1) == RMul(RPow(RAdd(Claims, RDiv(Profit, d)), 2), Moment2(e2, e1))
VarC(t) == VarOf(Delta(ii), EIc(t, 2), EIc(t, 1))
VarD(t) == VarOf(Disc(ii), EI(t, 2), EI(t, 1))
AskValue == obs' = <<"value">> /\ RowD("gross_policy_value", Arg, Vpro(n), Pk)
  /\ (IF Plain THEN RowD("gross_policy_value", [x |-> X, s |-> S, t |-> n, n |-> Po.N], Vpro(n), Pk) ELSE TRUE)
AskVar == Shortcut /\ RLt(0, ii) /\ obs' = <<"var">> /\ RowD("gross_policy_variance", Arg, VarD(n), RMul(Pk, Pk))
  /\ (IF Plain THEN RowD("gross_policy_variance", [x |-> X, s |-> S, t |-> n, n |-> Po.N], VarD(n), Pk) ELSE TRUE)
AskCont == Closed /\ obs' = <<"cont">>
  /\ LET A == [x |-> X, s |-> S, t |-> n, n |-> Po.N, contract |-> [discrete |-> FALSE] @@ ContractOf] IN
     /\ RowP("c" \o Mo.kind, "gross_policy_value", A, VproC(n), Pk, TolC)
     /\ (IF Shortcut /\ RLt(0, ii) THEN RowP("c" \o Mo.kind, "gross_policy_variance", A, VarC(n), Pk * Pk, TolV) ELSE TRUE)
(* from given actuarial values; at n > 0 the renewal contract applies       *)
AskFactors == Shortcut /\ RLt(0, ii) /\ obs' = <<"factors">>
  /\ LET c == IF n = 0 THEN ContractOf ELSE [renewed |-> n] @@ ContractOf
         cc == [discrete |-> FALSE] @@ c IN
     /\ RowD("gross_future_loss", [A |-> RStr(EI(n, 1)), contract |-> c], Vpro(n), Pk)
     /\ RowD("gross_future_loss", [a |-> RStr(ValA0(n)), contract |-> c], Vpro(n), Pk)
     /\ RowD("gross_future_loss", [A |-> RStr(EI(n, 1)), a |-> RStr(ValA0(n)), contract |-> c], Vpro(n), Pk)
     /\ RowD("gross_variance_loss", [A1 |-> RStr(EI(n, 1)), A2 |-> RStr(EI(n, 2)), contract |-> c], VarD(n), RMul(Pk, Pk))
     /\ (IF ~Closed THEN TRUE ELSE
         /\ RowP("", "gross_future_loss", [A |-> RStr(EIc(n, 1)), contract |-> cc], VproC(n), Pk, "x")
         /\ RowP("", "gross_future_loss", [a |-> RStr(ValA0c(n)), contract |-> cc], VproC(n), Pk, "x")
         /\ RowP("", "gross_variance_loss", [A1 |-> RStr(EIc(n, 1)), A2 |-> RStr(EIc(n, 2)), contract |-> cc], VarC(n), RMul(Pk, Pk), "x"))
(* the value of any policy from separately given insurance (claims) and annuity factors *)
AskParts == ~Shortcut /\ Po.en = 0 /\ obs' = <<"parts">>
  /\ RowD("gross_future_loss", [A |-> RStr(ValA(n, 1)), a |-> RStr(ValA0(n)), contract |-> IF n = 0 THEN ContractOf ELSE [renewed |-> n] @@ ContractOf], Vpro(n), Pk)
Ask == Run /\ Valid /\ UNCHANGED <<bi, xs, pl, G, n, sv, fund>> /\ (AskValue \/ AskVar \/ AskCont \/ AskFactors \/ AskParts)
Init == PolicyInit
Next == Year \/ Ask
=============================================================================
