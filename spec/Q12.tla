-------------------------------- MODULE Q12 --------------------------------
(***************************************************************************)
(* P12: the present value of a unit insurance (Z) and annuity (Y) as random*)
(* variables of the time of death.  State: a life followed a quarter of a  *)
(* year at a time with its distribution of the curtate lifetime so far; a  *)
(* query converts between time of death, present value and probability.    *)
(***************************************************************************)
EXTENDS Lifeline
Models == <<
  <<T40, {<<40, 0>>, <<42, 0>>}, 24>>, <<T0, {<<0, 0>>}, 20>>, <<T97, {<<97, 0>>, <<98, 0>>}, 20>>, <<TOp, {<<95, 0>>}, 15>>,
  <<TR(1, 7), {<<TR(1, 7).x0, 0>>, <<TR(1, 7).x0 + 2, 0>>}, 24>>, <<TR(2, 12), {<<TR(2, 12).x0, 0>>}, 48>>, <<TSq, {<<30, 0>>, <<31, 0>>}, 11>>,
  <<S60, {<<60, 0>>, <<61, 0>>}, 16>>, <<SR(1, 6), {<<SR(1, 6).x0, 0>>}, 16>>,
  <<CF1, {<<0, 0>>, <<30, 0>>}, 80>>, <<CF2, {<<5, 0>>}, 40>>,
  <<U12, {<<0, 0>>, <<5, 0>>}, 46>>, <<U100, {<<20, 0>>, <<75, 0>>}, 99>>, <<B20, {<<0, 0>>, <<12, 0>>}, 40>>, <<B9, {<<1, 0>>}, 30>>,
  <<GOM, {<<30, 0>>, <<60, 0>>}, 120>>, <<SULTM, {<<20, 0>>, <<48, 0>>, <<70, 0>>}, 120>>, <<SM1, {<<30, 0>>}, 60>> >>
Rates == <<"0", Q(1, 250), Q(1, 20), Q(Hash(<<Seed, "i12">>, 150) + 1, 1000), Q(1, 4)>>
(* distribution function of the curtate lifetime                            *)
Fk(k) == RSub(1, P(Mo, X, S, k + 1))
ZK(i, k) == Vt(i, k + 1)
YK(i, k) == AnnPV(i, k, k + 1)
Kmax == Yrs + 1
(* P(Z <= z_k) = P(K >= k): the percentile is the value of the largest k with P(K >= k) >= prob *)
PrZ(k) == P(Mo, X, S, k)
(* P(Y <= y_k) = P(K <= k): the percentile is the value of the smallest k with P(K <= k) >= prob *)
PctZ(p) == CHOOSE k \in 0..Kmax : RLe(p, PrZ(k)) /\ ~RLe(p, PrZ(k + 1))
PctY(p) == CHOOSE k \in 0..Kmax : RLe(p, Fk(k)) /\ (k = 0 \/ ~RLe(p, Fk(k - 1)))
Row12(i, c, a, e, t) == Emit([w |-> Mo.id, i |-> RStr(i), c |-> c, a |-> a, e |-> RStr(e), tol |-> t])
(* knowing the time of death *)
AskT == k4 > 0 /\ \E j \in 1..Len(Rates) : LET i == Rates[j] IN obs' = <<"t", j>>
  /\ Row12(i, "Z_from_t", [t |-> RStr(tt), discrete |-> FALSE], Vt(i, tt), "x")
  /\ Row12(i, "Z_from_t", [t |-> RStr(tt), discrete |-> TRUE], ZK(i, Yrs), "x")
  /\ Row12(i, "Y_from_t", [t |-> RStr(tt), discrete |-> FALSE], IF REq(i, 0) THEN tt ELSE RDiv(RSub(1, Vt(i, tt)), Delta(i)), "x")
  /\ Row12(i, "Y_from_t", [t |-> RStr(tt), discrete |-> TRUE], YK(i, Yrs), "x")
(* the expected payment of the year, as seen at any time of it *)
AskX == \E j \in 1..Len(Rates) : LET i == Rates[j] A == [x |-> X, s |-> S, t |-> RStr(tt), discrete |-> TRUE] IN obs' = <<"x", j>>
  /\ Row12(i, "Y_x", A, RMul(Vt(i, Yrs), P(Mo, X, S, Yrs)), "x")
  /\ Row12(i, "Z_x", A, RMul(Vt(i, Yrs + 1), QQ(Mo, X, S, Yrs, 1)), "x")
(* knowing the present value *)
AskV == k4 > 0 /\ \E j \in 1..Len(Rates) : LET i == Rates[j]
            Y == IF REq(i, 0) THEN tt ELSE RDiv(RSub(1, Vt(i, tt)), Delta(i)) IN obs' = <<"v", j>>
  /\ (IF REq(i, 0) THEN TRUE ELSE Row12(i, "Z_to_t", [Z |-> RStr(Vt(i, tt))], tt, "1e-8")
                 /\ Row12(i, "Z_to_prob", [x |-> X, Z |-> RStr(Vt(i, tt))], acc.S, "1e-7"))
  /\ Row12(i, "Y_to_t", [Y |-> RStr(Y)], tt, "1e-8")
  /\ Row12(i, "Y_to_prob", [x |-> X, Y |-> RStr(Y)], acc.dead, "1e-7")
(* knowing the probability, where some die around the time in question     *)
Strict == RLt(acc.S, 1) /\ (Whole => Mo.kind # "cforce") /\ RLt(P(Mo, X, S, Yrs + 1), acc.S) /\ RLt(acc.S, P(Mo, X, S, IF Whole THEN Yrs - 1 ELSE Yrs))
          /\ RLt(RDec("0.005"), acc.S) /\ RLt(acc.S, RDec("0.999"))
AskP == Strict /\ \E j \in 1..Len(Rates) : LET i == Rates[j] IN obs' = <<"p", j>>
  /\ (IF j # 1 THEN TRUE ELSE (/\ Row12(i, "Z_t", [x |-> X, prob |-> RStr(acc.S), discrete |-> FALSE], tt, "1e-4")
                /\ Row12(i, "Z_t", [x |-> X, prob |-> RStr(acc.S), discrete |-> TRUE], R(PctZ(acc.S)), "1e-4")
                /\ Row12(i, "Y_t", [x |-> X, prob |-> RStr(acc.dead), discrete |-> FALSE], tt, "1e-4")
                /\ Row12(i, "Y_t", [x |-> X, prob |-> RStr(acc.dead), discrete |-> TRUE], R(PctY(acc.dead) + 1), "1e-4")))
  /\ Row12(i, "Z_from_prob", [x |-> X, prob |-> RStr(acc.S), discrete |-> FALSE], Vt(i, tt), "1e-4")
  /\ Row12(i, "Z_from_prob", [x |-> X, prob |-> RStr(acc.S), discrete |-> TRUE], ZK(i, PctZ(acc.S)), "1e-4")
  /\ Row12(i, "Y_from_prob", [x |-> X, prob |-> RStr(acc.dead), discrete |-> FALSE],
           IF REq(i, 0) THEN tt ELSE RDiv(RSub(1, Vt(i, tt)), Delta(i)), "1e-4")
  /\ Row12(i, "Y_from_prob", [x |-> X, prob |-> RStr(acc.dead), discrete |-> TRUE], YK(i, PctY(acc.dead)), "1e-4")
Ask == Run /\ UNCHANGED <<mi, xs, k4, acc>> /\ Living /\ (AskT \/ AskX \/ AskV \/ AskP)
Next == Tick \/ Ask
(* the year of death picked out is the one the quarter lies in: Z falls and Y rises with the time of death *)
Inv_Percentile == (Run /\ Living /\ Strict) => PctZ(acc.S) = Yrs /\ PctY(acc.dead) = (IF Whole THEN Yrs - 1 ELSE Yrs)
Inv_Monotone == Run => \A j \in 1..Len(Rates) : RLe(ZK(Rates[j], Yrs + 1), ZK(Rates[j], Yrs)) /\ RLt(YK(Rates[j], Yrs), YK(Rates[j], Yrs + 1))
(* 1 = Z + d Y whenever death comes *)
Inv_Twin == Run => \A j \in 1..Len(Rates) : RNear(RAdd(ZK(Rates[j], Yrs), RMul(Disc(Rates[j]), YK(Rates[j], Yrs))), 1)
ModelsX == Models   \* substituted through this: TLC caches Models as a constant
ASSUME DefAll([j \in 1..Len(Models) |-> Models[j][1]])
=============================================================================
