-------------------------------- MODULE Q09 --------------------------------
(* Queries on expected present values and moments of discrete insurances   *)
EXTENDS Cohort

Rates == <<Q(1, 10), "0", Q(1, 20), Q(1, 3), Q(1, 500)>>
AgesOf(M, smax) ==
  UNION {{<<x, s>> : s \in 0..smax} : x \in {M.x0 + j : j \in 0..(Len(M.l) - 2)}}
Few(M) == {<<M.x0, 0>>, <<M.x0, 1>>, <<M.x0 + 1, 0>>, <<M.x0 + 1, 2>>}
Bases == <<
  <<T40, Q(1, 10), AgesOf(T40, 1), 9>>,
  <<T40, "0", Few(T40), 9>>,
  <<T0, Q(1, 20), {<<0, 0>>, <<1, 0>>, <<0, 2>>, <<2, 1>>}, 9>>,
  <<T97, Q(1, 4), Few(T97), 9>>,
  <<TR(1, 7), Q(1, 8), Few(TR(1, 7)), 9>>,
  <<TR(2, 5), Q(3, 50), Few(TR(2, 5)), 9>>,
  <<S60, Q(1, 10), {<<60, 0>>, <<60, 1>>, <<61, 0>>, <<60, 3>>, <<62, 2>>}, 9>>,
  <<U12, Q(1, 5), {<<0, 0>>, <<4, 0>>, <<4, 3>>, <<11, 0>>}, 14>>,
  <<CF1, Q(1, 25), {<<0, 0>>, <<30, 2>>}, 4>>,
  <<CF2, "0", {<<5, 1>>}, 3>>, <<Geo("CF0", "1"), "0", {<<5, 1>>}, 3>>, <<Geo("CF0", "1"), Q(1, 20), {<<5, 1>>}, 3>> >>

Bs == {1, 1000}
Ms == {1, 2, VARIANCE}
(* term as a user may give it when the cohort has ended at n: exactly n,   *)
(* longer than the remaining ages, or whole life                           *)
Terms == IF Extinct THEN {n, n + 2, WHOLE} ELSE {n}
(* years after the deferral; cohort state n is u + t here                  *)
q_ins(t, b, m, u) == InsM(Mo, ii, X, S, u, n - u, m, LAMBDA k : R(b), Zero)

AskTerm == \E t \in Terms, b \in Bs, m \in Ms :
  /\ obs' = <<"term", t, b, m>>
  /\ Emit(Row("term_insurance", [x |-> X, s |-> S, t |-> t, b |-> b, moment |-> m],
              InsM(Mo, ii, X, S, 0, n, m, LAMBDA k : R(b), Zero), "x"))
AskWhole == Extinct /\ \E b \in Bs, m \in Ms :
  /\ obs' = <<"whole", b, m>>
  /\ Emit(Row("whole_life_insurance", [x |-> X, s |-> S, b |-> b, moment |-> m],
              InsM(Mo, ii, X, S, 0, n, m, LAMBDA k : R(b), Zero), "x"))
AskPure == \E t \in (IF Extinct THEN {n, n + 2, WHOLE} ELSE {n}), en \in {0, 1, 500}, m \in Ms :
  /\ obs' = <<"pure", t, en, m>>
  /\ Emit(Row("E_x", [x |-> X, s |-> S, t |-> t, endowment |-> en, moment |-> m],
              PureE(Mo, ii, X, S, n, m, R(en)), "x"))
AskEndow == \E t \in Terms, b \in Bs, en \in {-1, 0, 250}, m \in Ms :
  /\ obs' = <<"endow", t, b, en, m>>
  /\ Emit(Row("endowment_insurance", [x |-> X, s |-> S, t |-> t, b |-> b, endowment |-> en, moment |-> m],
              InsM(Mo, ii, X, S, 0, n, m, LAMBDA k : R(b), IF en < 0 THEN R(b) ELSE R(en)), "x"))
AskDefer == \E u \in 0..n, b \in Bs, m \in Ms :
  /\ (Extinct => u < n)
  /\ \E t \in (IF Extinct THEN {n - u, n - u + 3, WHOLE} ELSE {n - u}) :
     /\ obs' = <<"defer", u, t, b, m>>
     /\ Emit(Row("deferred_insurance", [x |-> X, s |-> S, u |-> u, t |-> t, b |-> b, moment |-> m],
                 InsM(Mo, ii, X, S, u, n - u, m, LAMBDA k : R(b), Zero), "x"))
(* deferred to an age nobody reaches: worth nothing *)
AskLate == Extinct /\ \E u \in {n + 1, n + 3}, t \in {2, WHOLE} :
  /\ obs' = <<"late", u, t>>
  /\ Emit(Row("deferred_insurance", [x |-> X, s |-> S, u |-> u, t |-> t, b |-> 1, moment |-> 1], Zero, "x"))
AskInc == \E t \in Terms, b \in Bs :
  /\ obs' = <<"inc", t, b>>
  /\ Emit(Row("increasing_insurance", [x |-> X, s |-> S, t |-> t, b |-> b],
              Ins(Mo, ii, X, S, 0, n, 1, LAMBDA k : R(b * k), Zero), "x"))
AskDec == n > 0 /\ \E t \in Terms \ {WHOLE}, b \in Bs :
  /\ obs' = <<"dec", t, b>>
  /\ Emit(Row("decreasing_insurance", [x |-> X, s |-> S, t |-> t, b |-> b],
              Ins(Mo, ii, X, S, 0, n, 1, LAMBDA k : R(b * (t + 1 - k)), Zero), "x"))
(* general benefit: b0 + b1 k + b2 (attained age [x]+s when issued) at end of year k *)
AskGen == \E u \in {0, 1, 2}, t \in 0..n, m \in {1, 2}, en \in {0, 30} :
  /\ t = n - u
  /\ obs' = <<"gen", u, t, m, en>>
  /\ Emit(Row("A_x", [x |-> X, s |-> S, u |-> u, t |-> t, moment |-> m, endowment |-> en, benefit |-> <<5, 7, 2>>],
              Ins(Mo, ii, X, S, u, t, m, LAMBDA k : R(5 + (7 * k) + (2 * (X + S))), R(en)), "x"))
AskGenWhole == Extinct /\ \E u \in {0, 1}, m \in {1, 2} :
  /\ u < n
  /\ obs' = <<"genw", u, m>>
  /\ Emit(Row("A_x", [x |-> X, s |-> S, u |-> u, t |-> WHOLE, moment |-> m, endowment |-> 0, benefit |-> <<5, 7, 2>>],
              Ins(Mo, ii, X, S, u, n - u, m, LAMBDA k : R(5 + (7 * k) + (2 * (X + S))), Zero), "x"))
AskZ == ~Extinct /\ \E h \in {"0", Q(1, 2)} :
  /\ obs' = <<"Z", h>>
  /\ Emit(Row("Z_x", [x |-> X, s |-> S, t |-> RStr(RAdd(n, h))],
              RMul(Vt(ii, n + 1), PrK(Mo, X, S, n)), "x"))

Ask == obs = NoQuery /\ UNCHANGED <<bi, xs, n, acc>> /\
  (AskTerm \/ AskWhole \/ AskPure \/ AskEndow \/ AskDefer \/ AskLate \/ AskInc \/ AskDec \/ AskGen \/ AskGenWhole \/ AskZ)

Init == CohortInit /\ (bi = 1 => TRUE)
Next == Year \/ Ask
BasesX == Bases   \* substituted through this: TLC caches Bases as a constant
ASSUME DefAll([j \in 1..Len(Bases) |-> Bases[j][1]])
=============================================================================
