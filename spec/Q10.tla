-------------------------------- MODULE Q10 --------------------------------
(* P10: queries on expected present values and variances of discrete annuities *)
EXTENDS Cohort
AgesOf(M, smax) ==
  UNION {{<<x, s>> : s \in 0..smax} : x \in {M.x0 + j : j \in 0..(Len(M.l) - 2)}}
Few(M) == {<<M.x0, 0>>, <<M.x0, 1>>, <<M.x0 + 1, 0>>, <<M.x0 + 1, 2>>}
SelAges(M) == {<<M.x0, 0>>, <<M.x0, 1>>, <<M.x0 + 1, 0>>, <<M.x0, M.per + 1>>, <<M.x0 + 2, M.per>>}
Bases == <<
  <<T40, Q(1, 10), AgesOf(T40, 1), 9>>,
  <<T40, "0", Few(T40), 9>>, <<T40, Q(1, 500), Few(T40), 9>>, <<T0, "1", {<<0, 1>>}, 9>>,
  <<T0, Q(1, 20), {<<0, 0>>, <<1, 0>>, <<0, 2>>, <<2, 1>>}, 9>>,
  <<T97, Q(1, 4), Few(T97), 9>>,
  <<TR(1, 7), Q(1, 8), Few(TR(1, 7)), 9>>,
  <<TR(2, 5), Q(3, 50), Few(TR(2, 5)), 9>>,
  <<TR(2, 5), "0", Few(TR(2, 5)), 9>>,
  <<S60, Q(1, 10), {<<60, 0>>, <<60, 1>>, <<61, 0>>, <<60, 3>>, <<62, 2>>}, 9>>,
  <<S60, "0", {<<60, 0>>, <<60, 1>>, <<61, 2>>}, 9>>,
  <<SR(1, 6), Q(1, 16), SelAges(SR(1, 6)), 10>>,
  <<U12, Q(1, 5), {<<0, 0>>, <<4, 0>>, <<4, 3>>, <<11, 0>>}, 14>>,
  <<U12, "0", {<<3, 0>>, <<4, 3>>}, 14>>,
  <<B9, Q(1, 5), {<<0, 0>>, <<4, 3>>}, 14>>,
  <<CF1, Q(1, 25), {<<0, 0>>, <<30, 2>>}, 4>>,
  <<CF2, "0", {<<5, 1>>}, 3>>, <<Geo("CF0", "1"), "0", {<<5, 1>>}, 3>>, <<Geo("CF0", "1"), Q(1, 20), {<<5, 1>>}, 3>> >>
Bs == {1, 1000}
(* the library divides the variance of insurance by the square of the discount rate *)
AnnSc(b) == IF RLt(0, ii) THEN [sc |-> RStr(RMax(1, RDiv(RMul(b * b, Q(1, 1000000)), RPow(Disc(ii), 2))))] ELSE <<>>
LastYear == Extinct /\ n > 0          \* n years, the last of which nobody survives
(* ways of saying "all remaining years" once nobody is left *)
Terms == IF Extinct THEN {n, n + 2, WHOLE} ELSE {n}
AskTemp == \E t \in Terms, b \in Bs : obs' = <<"temp", t, b>>
  /\ Emit(Row("temporary_annuity", [x |-> X, s |-> S, t |-> t, b |-> b], RMul(b, acc.a), "x"))
AskTempVar == n > 0 /\ \E t \in Terms, b \in Bs : obs' = <<"tempvar", t, b>>
  /\ Emit(Row("temporary_annuity", [x |-> X, s |-> S, t |-> t, b |-> b, variance |-> TRUE], AnnVar(Mo, ii, X, S, n, R(b)), IF b = 1 THEN "1e-8" ELSE "2e-6") @@ AnnSc(b))
AskWhole == LastYear /\ \E b \in Bs : obs' = <<"whole", b>>
  /\ Emit(Row("whole_life_annuity", [x |-> X, s |-> S, b |-> b], RMul(b, acc.a), "x"))
  /\ Emit(Row("whole_life_annuity", [x |-> X, s |-> S, b |-> b, variance |-> TRUE], AnnVar(Mo, ii, X, S, n, R(b)), IF b = 1 THEN "1e-8" ELSE "2e-6") @@ AnnSc(b))
AskImm == \E t \in Terms, b \in Bs : obs' = <<"imm", t, b>>
  /\ Emit(Row("immediate_annuity", [x |-> X, s |-> S, t |-> t, b |-> b],
              RMul(b, RAdd(RSub(acc.a, 1), RMul(acc.v, acc.S))), "x"))
  /\ (IF n = 0 THEN TRUE ELSE Emit(Row("immediate_annuity", [x |-> X, s |-> S, t |-> t, b |-> b, variance |-> TRUE], AnnImmVar(Mo, ii, X, S, n, R(b)), IF b = 1 THEN "1e-8" ELSE "2e-6")))
AskDefer == \E u \in 0..n, b \in Bs : \E t \in (IF Extinct THEN {n - u, n - u + 3, WHOLE} ELSE {n - u}) :
  /\ (t # WHOLE \/ u < n)
  /\ obs' = <<"defer", u, t, b>>
  /\ Emit(Row("deferred_annuity", [x |-> X, s |-> S, u |-> u, t |-> t, b |-> b],
              Ann(Mo, ii, X, S, u, n - u, LAMBDA k : R(b)), "x"))
(* guaranteed for u years, then while alive for t more *)
AskCert == \E u \in 0..n, b \in Bs : \E t \in (IF Extinct THEN {n - u, WHOLE} ELSE {n - u}) :
  /\ (t # WHOLE \/ u < n)
  /\ obs' = <<"cert", u, t, b>>
  /\ Emit(Row("certain_life_annuity", [x |-> X, s |-> S, u |-> u, t |-> t, b |-> b],
              RAdd(RMul(b, Certain(ii, u)), Ann(Mo, ii, X, S, u, n - u, LAMBDA k : R(b))), "x"))
(* beyond the last age only the guaranteed payments matter *)
AskLate == LastYear /\ \E u \in {n, n + 1, n + 3}, t \in {2, WHOLE} : obs' = <<"late", u, t>>
  /\ Emit(Row("deferred_annuity", [x |-> X, s |-> S, u |-> u, t |-> t], Zero, "x"))
  /\ Emit(Row("certain_life_annuity", [x |-> X, s |-> S, u |-> u, t |-> t, b |-> 10], RMul(10, Certain(ii, u)), "x"))
AskInc == \E t \in Terms, b \in Bs : obs' = <<"inc", t, b>>
  /\ Emit(Row("increasing_annuity", [x |-> X, s |-> S, t |-> t, b |-> b], RMul(b, acc.Ia), "x"))
AskDec == \E t \in Terms \ {WHOLE}, b \in Bs : obs' = <<"dec", t, b>>
  /\ Emit(Row("decreasing_annuity", [x |-> X, s |-> S, t |-> t, b |-> b],
              Ann(Mo, ii, X, S, 0, n, LAMBDA k : R(b * (t - k))), "x"))
AskGen == \E u \in {0, 1, 2}, t \in 0..n : t = n - u /\ obs' = <<"gen", u, t>>
  /\ Emit(Row("a_x", [x |-> X, s |-> S, u |-> u, t |-> t, benefit |-> <<5, 7, 2>>],
              Ann(Mo, ii, X, S, u, t, LAMBDA k : R(5 + (7 * k) + (2 * (X + S)))), "x"))
AskGenWhole == LastYear /\ \E u \in {0, 1} : u < n /\ obs' = <<"genw", u>>
  /\ Emit(Row("a_x", [x |-> X, s |-> S, u |-> u, t |-> WHOLE, benefit |-> <<5, 7, 2>>],
              Ann(Mo, ii, X, S, u, n - u, LAMBDA k : R(5 + (7 * k) + (2 * (X + S)))), "x"))
AskY == ~Extinct /\ \E h \in {"0", Q(1, 2)} : obs' = <<"Y", h>>
  /\ Emit(Row("Y_x", [x |-> X, s |-> S, t |-> RStr(RAdd(n, h))], RMul(acc.v, acc.S), "x"))
(* annuity from insurance and back: endowment insurance A + v^n p *)
AskTwin == n > 0 /\ RLt(0, ii) /\ obs' = <<"twin">>
  /\ LET A == RAdd(acc.A, RMul(acc.v, acc.S)) IN
     /\ Emit(Row("annuity_twin", [A |-> RStr(A)], acc.a, "x"))
     /\ Emit(Row("insurance_twin", [a |-> RStr(acc.a)], A, "x"))
     /\ \A b \in Bs : Emit(Row("annuity_variance", [A1 |-> RStr(A), A2 |-> RStr(RAdd(acc.A2, RMul(RPow(acc.v, 2), acc.S))), b |-> b],
                               AnnVar(Mo, ii, X, S, n, R(b)), "1e-7")
                               @@ AnnSc(b))
(* constant force: the annuity and insurance never end *)
AskForce == Mo.kind = "cforce" /\ (REq(Mo.p, 1) => RLt(0, ii)) /\ n = 0 /\ \E b \in Bs : obs' = <<"force", b>> /\
  LET v == Vf(ii)
      q == RSub(1, Mo.p)
      a == RDiv(1, RSub(1, RMul(v, Mo.p)))
      A == RDiv(RMul(v, q), RSub(1, RMul(v, Mo.p)))
      v2 == RMul(v, v)
      A2 == RDiv(RMul(v2, q), RSub(1, RMul(v2, Mo.p)))
      va == IF RLt(0, ii) THEN RDiv(RSub(A2, RMul(A, A)), RPow(Disc(ii), 2)) ELSE RDiv(Mo.p, RMul(q, q))
  IN /\ Emit(Row("whole_life_annuity", [x |-> X, s |-> S, b |-> b], RMul(b, a), "x"))
     /\ Emit(Row("temporary_annuity", [x |-> X, s |-> S, t |-> WHOLE, b |-> b], RMul(b, a), "x"))
     /\ Emit(Row("immediate_annuity", [x |-> X, s |-> S, b |-> b], RMul(b, RSub(a, 1)), "x"))
     /\ Emit(Row("whole_life_annuity", [x |-> X, s |-> S, b |-> b, variance |-> TRUE], RMul(b * b, va), "1e-7"))
     /\ \A u \in {1, 5} : Emit(Row("deferred_annuity", [x |-> X, s |-> S, u |-> u, b |-> b], RMul(RMul(b, RPow(RMul(v, Mo.p), u)), a), "x"))
Ask == obs = NoQuery /\ UNCHANGED <<bi, xs, n, acc>> /\
  (AskTemp \/ AskTempVar \/ AskWhole \/ AskImm \/ AskDefer \/ AskCert \/ AskLate \/ AskInc \/ AskDec \/ AskGen \/ AskGenWhole \/ AskY \/ AskTwin \/ AskForce)
Init == CohortInit
Next == Year \/ Ask
(* payments in arrears = payments in advance one year later, while alive *)
Inv_Arrears == (Run /\ n > 0 /\ ~Extinct) => REq(AnnImmVar(Mo, ii, X, S, n, R(1)), AnnVar(Mo, ii, X, S, n + 1, R(1)))
(* increasing and decreasing payments add up to level ones *)
Inv_Sum == (Run /\ n > 0) => REq(RAdd(acc.Ia, Ann(Mo, ii, X, S, 0, n, LAMBDA k : R(n - k))), RMul(n + 1, acc.a))
BasesX == Bases   \* substituted through this: TLC caches Bases as a constant
ASSUME DefAll([j \in 1..Len(Bases) |-> Bases[j][1]])
=============================================================================
