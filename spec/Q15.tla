-------------------------------- MODULE Q15 --------------------------------
(***************************************************************************)
(* P15: net premium policy values and the variance of the net future loss. *)
(* In every year of every policy sold at the net premium, the library is   *)
(* asked for the policy value.                                             *)
(***************************************************************************)
EXTENDS Portfolio
NetPol == Po.g = "eq" /\ Po.st = 0 /\ Po.ip = 0 /\ Po.rp = 0 /\ REq(Po.im, 0) /\ REq(Po.rm, 0)
(* rates of interest at which the library's shortcuts for whole life and endowment insurance exist *)
Shortcut == Po.N = WHOLE \/ Po.en = Po.b
Valid == InForce /\ (RLt(0, ii) \/ ~Shortcut)
Pk == Po.b + Po.en
Arg == [x |-> X, s |-> S, t |-> n, b |-> Po.b, n |-> Po.N, endowment |-> Po.en]
NetC == RDiv(RAdd(RMul(Po.b, ValAc(0, 1)), RMul(Po.en, Vn(0, 1))), ValA0c(0))
VproC(t) == RSub(RAdd(RMul(Po.b, ValAc(t, 1)), RMul(Po.en, Vn(t, 1))), RMul(NetC, ValA0c(t)))
VarC(t) == RMul(RPow(RAdd(Po.b, RDiv(NetC, Delta(ii))), 2), Moment2(EIc(t, 2), EIc(t, 1)))
VarD(t) == IF Endless THEN RMul(RPow(RAdd(Po.b, RDiv(G, Disc(ii))), 2), Moment2(EI(t, 2), EI(t, 1))) ELSE LossVar(t)
AskValue == obs' = <<"value">> /\ RowD("net_policy_value", Arg, Vpro(n), Pk)
AskVar == Shortcut /\ RLt(0, ii) /\ obs' = <<"var">> /\ RowD("net_policy_variance", Arg, VarD(n), RMax(Pk, RDiv(RMul(RMul(Pk, Pk), Q(1, 1000000)), RPow(Disc(ii), 2))))
AskCont == Closed /\ obs' = <<"cont">>
  /\ RowP("c" \o Mo.kind, "net_policy_value", [discrete |-> FALSE] @@ Arg, VproC(n), Pk, TolC)
  /\ (IF Shortcut /\ RLt(0, ii) THEN RowP("c" \o Mo.kind, "net_policy_variance", [discrete |-> FALSE] @@ Arg, VarC(n), Pk * Pk, TolV) ELSE TRUE)
(* from given actuarial values *)
AskFactors == Shortcut /\ RLt(0, ii) /\ obs' = <<"factors">>
  /\ RowD("net_future_loss", [A |-> RStr(EI(0, 1)), A1 |-> RStr(EI(n, 1)), b |-> Po.b], Vpro(n), Pk)
  /\ RowD("net_variance_loss", [A |-> RStr(EI(0, 1)), A1 |-> RStr(EI(n, 1)), A2 |-> RStr(EI(n, 2)), b |-> Po.b], VarD(n), Pk * Pk)
  /\ (IF n = 0 THEN RowD("net_variance_loss", [A1 |-> RStr(EI(0, 1)), A2 |-> RStr(EI(0, 2)), b |-> Po.b], VarD(0), Pk * Pk) ELSE TRUE)
Ask == Run /\ NetPol /\ Valid /\ UNCHANGED <<bi, xs, pl, G, n, sv, fund>> /\ (AskValue \/ AskVar \/ AskCont \/ AskFactors)
Init == PolicyInit
Next == Year \/ Ask
=============================================================================
