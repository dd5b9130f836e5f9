-------------------------------- MODULE Q17 --------------------------------
(***************************************************************************)
(* P17: the loss at issue of a policy as a function of the time of death.  *)
(* As the life is followed, the library is asked for the loss if death     *)
(* comes now, for the time of death that causes a given loss, and for      *)
(* probabilities and percentiles of the loss.                              *)
(***************************************************************************)
EXTENDS Portfolio
T(r) == RAdd(n, r)
Fr == {"0", Q(1, 4), Q(1, 2), Q(9, 10)}
Limited == Po.N # WHOLE
Ac(t) == IF REq(ii, 0) THEN R(t) ELSE RDiv(RSub(1, Vt(ii, t)), Delta(ii))
(* loss for death in year k + 1 (annual) and at time t (continuous)         *)
LA(k) == IF Limited /\ k >= Po.N THEN RAdd(RSub(RMul(Po.en, Vt(ii, Po.N)), RMul(Profit, Certain(ii, Po.N))), InitCost)
         ELSE RAdd(RSub(RMul(Claims, Vt(ii, k + 1)), RMul(Profit, Certain(ii, k + 1))), InitCost)
LC(t) == IF Limited /\ RLe(Po.N, t) THEN RAdd(RSub(RMul(Po.en, Vt(ii, Po.N)), RMul(Profit, Ac(Po.N))), InitCost)
         ELSE RAdd(RSub(RMul(Claims, Vt(ii, t)), RMul(Profit, Ac(t))), InitCost)
Con == ContractOf
ConC == [discrete |-> FALSE] @@ ContractOf
Sc == RMax(1, RAdd(Claims, G))
(* the later death comes, the smaller the loss: then percentiles of the loss are those of the lifetime *)
Falling == RLt(0, Profit) /\ (~Limited \/ RLe(Po.en, Claims))
AskT == obs' = <<"t">> /\ \A r \in Fr :
  /\ RowP("", "L_from_t", [t |-> RStr(T(r)), contract |-> Con], LA(n), Sc, "x")
  /\ RowP("", "L_from_t", [t |-> RStr(T(r)), contract |-> ConC], LC(T(r)), Sc, "x")
(* percentiles strictly inside the steps of the distribution                *)
Inside == S = 0 /\ Falling /\ RLt(RAdd(P(Mo, X, S, n + 1), RDec("0.001")), sv)
Mid == RDiv(RAdd(sv, P(Mo, X, S, n + 1)), 2)
SAt(r) == P(Mo, X, S, T(r))
AskP == Inside /\ obs' = <<"prob">>
  /\ RowP("p" \o Mo.kind, "L_from_prob", [x |-> X, prob |-> RStr(Mid), contract |-> Con], LA(n), Sc, "1e-4")
  /\ \A r \in Fr \ {"0"} : RowP("p" \o Mo.kind, "L_from_prob", [x |-> X, prob |-> RStr(SAt(r)), contract |-> ConC], LC(T(r)), Sc, "1e-4")
(* the time of death for a loss no more than l: the first such year, or the exact time *)
Last == Limited /\ n >= Po.N - 1
AskL == Falling /\ RLt(0, ii) /\ obs' = <<"loss">>
  /\ IF n > 0 /\ REq(LA(n), LA(n - 1)) THEN TRUE ELSE LET l == IF n = 0 THEN RAdd(LA(0), 1) ELSE RAdd(RMul(Q(1, 3), LA(n)), RMul(Q(2, 3), LA(n - 1)))
         l2 == IF n = 0 THEN RAdd(LA(0), Sc) ELSE RAdd(RMul(Q(7, 8), LA(n)), RMul(Q(1, 8), LA(n - 1)))
     IN \A z \in {l, l2} :
        /\ RowP("l" \o Mo.kind, "L_to_t", [L |-> RStr(z), contract |-> Con], R(n), "1", "1e-6")
        /\ (IF S = 0 THEN RowP("l" \o Mo.kind, "L_to_prob", [x |-> X, L |-> RStr(z), contract |-> Con], sv, "1", "1e-6") ELSE TRUE)
  /\ (IF Limited /\ n >= Po.N THEN TRUE ELSE
      \A r \in Fr \ {"0"} :
        /\ RowP("l" \o Mo.kind, "L_to_t", [L |-> RStr(LC(T(r))), contract |-> ConC], T(r), "1", "1e-4")
        /\ (IF S = 0 THEN RowP("l" \o Mo.kind, "L_to_prob", [x |-> X, L |-> RStr(LC(T(r))), contract |-> ConC], SAt(r), "1", "1e-4") ELSE TRUE))
Ask == Run /\ InForce /\ UNCHANGED <<bi, xs, pl, G, n, sv, fund>> /\ (AskT \/ AskP \/ AskL)
Init == PolicyInit
Next == Year \/ Ask
(* distribution of the loss: P(L <= l_k) = P(K >= k) *)
Inv_Falling == (Run /\ Falling) => RLt(LA(n + 1), LA(n)) \/ (Limited /\ n >= Po.N - 1 /\ RLe(LA(n + 1), LA(n)))
Inv_LossMean == (Run /\ n = 0 /\ InForce /\ Finite) => REq(Vpro(0), RAdd(Sum(0, Years - 1, LAMBDA k : RMul(LA(k), PrK(Mo, X, S, k))), RMul(LA(Years), P(Mo, X, S, Years))))
=============================================================================
