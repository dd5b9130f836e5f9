-------------------------------- MODULE Q04 --------------------------------
(* P04: expectations and moments of the future lifetime                    *)
EXTENDS Lifeline
AgesOf(M) == UNION {{<<M.x0 + j, 0>>, <<M.x0 + j, 1>>, <<M.x0, j>>} : j \in 0..(Len(M.l) - 2)}
Models == <<
  <<T40, AgesOf(T40), 36>>, <<T40C, AgesOf(T40C), 20>>, <<T0, AgesOf(T0), 28>>, <<T0C, AgesOf(T0C), 24>>,
  <<T97, AgesOf(T97), 28>>, <<TR(1, 7), AgesOf(TR(1, 7)), 32>>, <<TR(3, 11), AgesOf(TR(3, 11)), 48>>,
  <<TRC(1, 6), AgesOf(TRC(1, 6)), 20>>,
  <<S60, {<<60, 0>>, <<60, 1>>, <<61, 0>>, <<60, 3>>, <<62, 2>>}, 36>>, <<S60C, {<<60, 0>>, <<61, 1>>}, 20>>,
  <<CF1, {<<0, 0>>, <<30, 2>>}, 24>>, <<CF2, {<<5, 1>>}, 24>>, <<Geo("CF0", "1"), {<<5, 1>>}, 24>>,
  <<U12, {<<0, 0>>, <<4, 0>>, <<4, 3>>, <<10, 1>>}, 52>>, <<U100, {<<30, 0>>, <<60, 35>>}, 24>>,
  <<B20, {<<0, 0>>, <<10, 0>>, <<10, 4>>, <<17, 2>>}, 44>>, <<B9, {<<0, 0>>, <<3, 0>>, <<3, 4>>}, 40>>,
  <<Bta("BR", 40 + Hash(<<Seed, "om">>, 40), Q(Hash(<<Seed, "al">>, 7) + 1, 2)), {<<10, 0>>, <<20, 5>>}, 20>>,
  <<SULTM, {<<60, 0>>, <<50, 10>>, <<90, 5>>}, 16>>, <<SM1, {<<30, 0>>, <<30, 4>>}, 16>> >>
Ms == {1, 2, VARIANCE}
Tabular == Mo.kind \in {"table", "select"}
Closed == Tabular \/ Mo.kind = "beta"
tolC == IF Mo.kind \in {"makeham", "selmu"} \/ (Mo.kind = "beta" /\ ~RIsInt(Mo.alpha)) \/ Mo.frac = "cfm" THEN "1e-6" ELSE "1e-7"
(* "none survive" is reached at Yrs; a longer or unlimited term adds nothing *)
Terms == IF ~Living THEN {Yrs, Yrs + 4, WHOLE} ELSE {Yrs}
ArgE(t, cur, m) == [x |-> X, s |-> S, t |-> t, curtate |-> cur, moment |-> m]
AskCurt == Whole /\ k4 > 0 /\ \E t \in Terms, m \in Ms : obs' = <<"curt", t, m>>
   /\ Emit(Row("e_x", ArgE(t, TRUE, m), CurtMV(Mo, X, S, Yrs, m), "x"))
AskComp == Whole /\ k4 > 0 /\ \E t \in Terms, m \in Ms : obs' = <<"comp", t, m>>
   /\ Emit(Row("e_x", ArgE(t, FALSE, m), CompM(Mo, X, S, Yrs, m), tolC))
(* whole-life expectations of laws without a limiting age: closed forms    *)
AskForce == Mo.kind = "cforce" /\ ~REq(Mo.p, 1) /\ k4 = 0 /\ obs' = <<"force">>
   /\ LET mu == RNeg(RLn(Mo.p)) IN
      /\ Emit(Row("e_x", ArgE(WHOLE, FALSE, 1), RDiv(1, mu), "1e-7"))
      /\ Emit(Row("e_x", ArgE(WHOLE, FALSE, VARIANCE), RDiv(1, RMul(mu, mu)), "1e-7"))
      /\ Emit(Row("e_x", ArgE(WHOLE, TRUE, 1), RDiv(Mo.p, RSub(1, Mo.p)), "x"))
      /\ Emit(Row("e_x", ArgE(WHOLE, TRUE, VARIANCE), RDiv(Mo.p, RPow(RSub(1, Mo.p), 2)), "x"))
AskMakeham == Mo.kind = "makeham" /\ k4 = 0 /\ obs' = <<"mk">>
   /\ Emit(Row("e_x", ArgE(WHOLE, FALSE, 1), Comp(Mo, X, S, 140 - X - S, 1), "1e-6"))
   /\ Emit(Row("e_x", ArgE(WHOLE, TRUE, 1), Curt1(Mo, X, S, 140 - X - S), "x"))
(* complete expectation under the fractional-age assumption, limited to any t *)
AskR == k4 > 0 /\ Living /\ obs' = <<"er">>
   /\ Emit(Row("e_r", [x |-> X, s |-> S, t |-> RStr(tt)], Comp(Mo, X, S, tt, 1), tolC))
(* constant force: whoever is left in the last year dies as it begins *)
AskRLast == Mo.frac = "cfm" /\ Whole /\ k4 > 0 /\ Living /\ ~Alive(Mo, X, S + Yrs + 1) /\ obs' = <<"erl">>
   /\ Emit(Row("e_r", [x |-> X, s |-> S], Comp(Mo, X, S, Yrs, 1), tolC))
(* a mortality law's expectation starts at any fraction of a year too *)
AskRFrac == Mo.kind = "makeham" /\ k4 > 0 /\ (k4 % 2) = 0 /\ obs' = <<"erf">> /\ \A r \in {Q(1, 4), Q(1, 2)} :
   Emit(Row("e_r", [x |-> X, s |-> S, r |-> RStr(r), t |-> RStr(tt)], Comp(Mo, X, RAdd(S, r), tt, 1), "1e-6"))
AskRFracLast == Mo.kind = "makeham" /\ k4 = 0 /\ obs' = <<"erfl">> /\ \A r \in {Zero, Q(1, 2)} :
   Emit(Row("e_r", [x |-> X, s |-> S, r |-> RStr(r)], Comp(Mo, X, RAdd(S, r), 140 - X - S, 1), "1e-6"))
AskRWhole == ~Living /\ Whole /\ obs' = <<"erw">>
   /\ Emit(Row("e_r", [x |-> X, s |-> S], Comp(Mo, X, S, Yrs, 1), tolC))
(* uniform deaths: the time of death within the year is independent of the year *)
AskApprox == ~Living /\ Whole /\ Mo.frac = "udd" /\ obs' = <<"approx">> /\
  LET k1 == CurtMV(Mo, X, S, Yrs, 1)  k2 == CurtMV(Mo, X, S, Yrs, VARIANCE)  c1 == CompM(Mo, X, S, Yrs, 1)  c2 == CompM(Mo, X, S, Yrs, VARIANCE) IN
  /\ Emit(Row("e_approximate", [e_curtate |-> RStr(k1)], c1, "x")) /\ Emit(Row("e_approximate", [e_complete |-> RStr(c1)], k1, "x"))
  /\ Emit(Row("e_approximate", [e_curtate |-> RStr(k2), variance |-> TRUE], c2, "x")) /\ Emit(Row("e_approximate", [e_complete |-> RStr(c2), variance |-> TRUE], k2, "x"))
Ask == Run /\ UNCHANGED <<mi, xs, k4, acc>> /\ (AskCurt \/ AskComp \/ AskForce \/ AskMakeham \/ AskR \/ AskRLast \/ AskRFrac \/ AskRFracLast \/ AskRWhole \/ AskApprox)
Init == LifeInit
Next == Tick \/ Ask

(* the sums over survival probabilities are the moments of min(K, t)       *)
Inv_Curtate == (Run /\ Whole) => REq(Curt1(Mo, X, S, Yrs), CurtM(Mo, X, S, Yrs, 1)) /\ REq(Curt2(Mo, X, S, Yrs), CurtM(Mo, X, S, Yrs, 2))
(* K <= T < K + 1 in expectation; UDD adds exactly half the deaths         *)
Inv_Half == (Run /\ Whole /\ Mo.frac = "udd") =>
   REq(Comp(Mo, X, S, Yrs, 1), RAdd(Curt1(Mo, X, S, Yrs), RDiv(RSub(1, P(Mo, X, S, Yrs)), 2)))
Inv_Bounds == (Run /\ Whole /\ Yrs > 0) =>
   LET c == Comp(Mo, X, S, Yrs, 1) IN RLe(Curt1(Mo, X, S, Yrs), c) /\ RLe(c, Yrs) /\ RLe(RMul(c, c), RAdd(Comp(Mo, X, S, Yrs, 2), Q(1, 1000000)))
(* e = e_[1] + p e_{+1}                                                    *)
Inv_Step == (Run /\ Whole /\ Yrs > 1 /\ Mo.kind # "makeham" /\ Alive(Mo, X, S + 1)) =>
   RTol(Comp(Mo, X, S, Yrs, 1), RAdd(Comp(Mo, X, S, 1, 1), RMul(P(Mo, X, S, 1), Comp(Mo, X, S + 1, Yrs - 1, 1))), RPow(10, -8))
ModelsX == Models   \* substituted through this: TLC caches Models as a constant
ASSUME DefAll([j \in 1..Len(Models) |-> Models[j][1]])
=============================================================================
