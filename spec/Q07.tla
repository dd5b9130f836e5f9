-------------------------------- MODULE Q07 --------------------------------
(* P07: life-table probabilities at whole ages, up to and past the last age *)
EXTENDS Lifeline
AgesOf(M) == UNION {{<<M.x0 + j, 0>>, <<M.x0, j>>, <<M.x0 + (j \div 2), j - (j \div 2)>>} : j \in 0..(Len(M.l) - 2)}
Models == <<
  <<T40, AgesOf(T40), 40>>, <<T0, AgesOf(T0), 28>>, <<T97, AgesOf(T97), 40>>, <<T40C, {<<40, 0>>, <<43, 1>>}, 28>>, <<TSq, AgesOf(TSq), 28>>, <<TOp, AgesOf(TOp), 28>>, <<T1, AgesOf(T1), 24>>,
  <<TR(1, 7), AgesOf(TR(1, 7)), 40>>, <<TR(2, 5), AgesOf(TR(2, 5)), 32>>, <<TR(4, 12), AgesOf(TR(4, 12)), 56>> >>
Over == {0, 1, 3, 50}
Us == IF Living THEN {0} ELSE Over
A0 == [x |-> X, s |-> S]
AskP == \E z \in Us : obs' = <<"p", z>> /\ Emit(Row("p_x", A0 @@ [t |-> Yrs + z], P(Mo, X, S, Yrs + z), "x"))
AskQ == \E u \in 0..Yrs, z \in Us : obs' = <<"q", u, z>>
   /\ Emit(Row("q_x", A0 @@ [t |-> (Yrs - u) + z, u |-> u], QQ(Mo, X, S, u, (Yrs - u) + z), "x"))
AskQLate == ~Living /\ \E u \in Over, t \in {1, 4} : obs' = <<"ql", u, t>>
   /\ Emit(Row("q_x", A0 @@ [t |-> t, u |-> Yrs + u], Zero, "x"))
AskL == obs' = <<"l">> /\ \A z \in Us : Emit(Row("l_ratio", [x |-> X, s |-> S + Yrs + z, x0 |-> X, s0 |-> S], P(Mo, X, S, Yrs + z), "x"))
AskD == \E z \in Us : obs' = <<"d", z>>
   /\ Emit(RowK("tab", "dt_ratio", A0 @@ [t |-> Yrs + z], QQ(Mo, X, S, 0, Yrs + z), "x"))
   /\ (Living /\ Alive(Mo, X, S + Yrs) => Emit(Row("d_ratio", [x |-> X, s |-> S + Yrs, x0 |-> X, s0 |-> S], QQ(Mo, X, S, Yrs, 1), "x")))
(* the force of a year is minus the logarithm of its survival: compared as survival *)
AskMu == obs' = <<"mu">> /\ Alive(Mo, X, S + Yrs) /\ RLt(Q(1, 1000), P(Mo, X, S + Yrs, 1))
   /\ Emit(RowK("tab", "mu_year", A0 @@ [t |-> Yrs], P(Mo, X, S + Yrs, 1), "x"))
AskE == obs' = <<"E">> /\ \A en \in {1, 50} : Emit([w |-> Mo.id, i |-> "0.05", c |-> "E_x",
        a |-> A0 @@ [t |-> Yrs, endowment |-> en], e |-> RStr(PureE(Mo, Q(1, 20), X, S, Yrs, 1, en)), tol |-> "x"])
(* total probability: the whole lifetime distribution sums to one          *)
AskTotal == ~Living /\ obs' = <<"sum">> /\ Emit(Row("sum_q", A0 @@ [n |-> Yrs + 3], R(1), "x"))
Ask == Run /\ Whole /\ UNCHANGED <<mi, xs, k4, acc>> /\ (AskP \/ AskQ \/ AskQLate \/ AskL \/ AskD \/ AskE \/ AskMu \/ AskTotal)
Init == LifeInit
Next == Tick \/ Ask
Inv_Deferred == (Run /\ Whole) => \A u \in 0..Yrs :
    REq(QQ(Mo, X, S, u, Yrs - u), RMul(P(Mo, X, S, u), IF Alive(Mo, X, S + u) THEN QQ(Mo, X, S + u, 0, Yrs - u) ELSE Zero))
ModelsX == Models   \* substituted through this: TLC caches Models as a constant
ASSUME DefAll([j \in 1..Len(Models) |-> Models[j][1]])
=============================================================================
