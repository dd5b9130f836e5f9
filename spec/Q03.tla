-------------------------------- MODULE Q03 --------------------------------
(* P03: parametric mortality laws at any age and fractional duration       *)
EXTENDS Lifeline
Models == <<
  <<CF1, {<<0, 0>>, <<30, 2>>, <<5, 7>>}, 24>>,
  <<CF2, {<<50, 0>>, <<0, 3>>}, 16>>,
  <<U12, {<<0, 0>>, <<4, 0>>, <<4, 3>>, <<10, 1>>}, 52>>,
  <<U100, {<<0, 0>>, <<30, 0>>, <<60, 35>>, <<99, 0>>}, 24>>,
  <<B20, {<<0, 0>>, <<10, 0>>, <<10, 4>>, <<17, 2>>}, 44>>,
  <<B9, {<<0, 0>>, <<3, 0>>, <<3, 4>>}, 40>>,
  <<Bta("BR", 60 + Hash(<<Seed, "om">>, 40), Q(Hash(<<Seed, "al">>, 7) + 1, 2)), {<<0, 0>>, <<40, 0>>, <<30, 5>>}, 24>>,
  <<SULTM, {<<20, 0>>, <<40, 0>>, <<50, 10>>, <<90, 5>>}, 24>>,
  <<GOM, {<<20, 0>>, <<45, 3>>}, 24>>,
  <<Mak("MR", Q(Hash(<<Seed, "A">>, 30), 10000), Q(Hash(<<Seed, "B">>, 50) + 1, 100000), RAdd(1, Q(Hash(<<Seed, "c">>, 10) + 5, 100))),
    {<<20, 0>>, <<33, 2>>}, 20>> >>
R4 == {0, 1, 2, 6}        \* fractional age r, in quarters
Beyond == Mo.kind = "beta" /\ ~Living
St(r) == RAdd(S, T(r))
AliveAt(r) == Alive(Mo, X, St(r))
AskP == /\ obs' = <<"p">> /\ Emit(Row("p_x", [x |-> X, s |-> S, t |-> RStr(tt)], acc.S, "x"))
(* past the limiting age nobody survives *)
AskLate == \E z \in {0, 3, 40} : /\ ~Living /\ obs' = <<"late", z>>
   /\ Emit(Row("p_x", [x |-> X, s |-> S, t |-> RStr(RAdd(tt, z))], Zero, "x"))
   /\ Emit(Row("q_x", [x |-> X, s |-> S, t |-> RStr(RAdd(tt, z)), u |-> 0], R(1), "x"))
   /\ Emit(Row("q_x", [x |-> X, s |-> S, t |-> RStr(RAdd(tt, z + 1)), u |-> "0.5"], P(Mo, X, S, Q(1, 2)), "x"))
   /\ Emit(Row("q_x", [x |-> X, s |-> S, t |-> 2, u |-> RStr(RAdd(tt, z))], Zero, "x"))
   /\ Emit(Row("p_r", [x |-> X, s |-> S, r |-> "0.25", t |-> RStr(RAdd(tt, z))], Zero, "x"))
   /\ Emit(Row("l_abs0", [x |-> X, s |-> S, t |-> RStr(RAdd(tt, z))], Zero, "x"))
AskQ == \E u \in {0, 1, 4, 6} : /\ u <= k4 /\ obs' = <<"q", u>>
   /\ Emit(Row("q_x", [x |-> X, s |-> S, t |-> RStr(T(k4 - u)), u |-> RStr(T(u))], QQ(Mo, X, S, T(u), T(k4 - u)), "x"))
AskFrac == \E r \in R4 : /\ AliveAt(r) /\ obs' = <<"frac", r>>
   /\ Emit(Row("p_r", [x |-> X, s |-> S, r |-> RStr(T(r)), t |-> RStr(tt)], P(Mo, X, St(r), tt), "x"))
   /\ \A u \in {0, 1, 3} : u <= k4 =>
        Emit(Row("q_r", [x |-> X, s |-> S, r |-> RStr(T(r)), t |-> RStr(T(k4 - u)), u |-> RStr(T(u))],
                 QQ(Mo, X, St(r), T(u), T(k4 - u)), "x"))
   /\ (Alive(Mo, X, RAdd(St(r), tt)) =>
        /\ Emit(Row("f_r", [x |-> X, s |-> S, r |-> RStr(T(r)), t |-> RStr(tt)], F(Mo, X, St(r), tt), "x"))
        /\ (k4 = 0 => Emit(Row("mu_r", [x |-> X, s |-> S, r |-> RStr(T(r))], Mu(Mo, X, St(r)), "x"))))
   /\ Emit([w |-> Mo.id, i |-> "0.05", c |-> "E_r", a |-> [x |-> X, s |-> S, r |-> RStr(T(r)), t |-> RStr(tt)],
            e |-> RStr(RMul(Vt(Q(1, 20), tt), P(Mo, X, St(r), tt))), tol |-> "x"])
AskF == Living /\ obs' = <<"f">>
   /\ Emit(Row("f_x", [x |-> X, s |-> S, t |-> RStr(tt)], F(Mo, X, S, tt), "x"))
   /\ Emit(Row("mu_x", [x |-> X, s |-> S, t |-> RStr(tt)], Mu(Mo, X, RAdd(S, tt)), "x"))
AskL == obs' = <<"l">>
   /\ Emit(Row("lr_ratio", [x |-> X, s |-> S, r |-> RStr(tt)], acc.S, "x"))
   /\ (Whole => Emit(Row("l_ratio", [x |-> X, s |-> S + Yrs, x0 |-> X, s0 |-> S], acc.S, "x")))
   /\ (Whole => Emit(Row("d_ratio", [x |-> X, s |-> S + Yrs, x0 |-> X, s0 |-> S], QQ(Mo, X, S, Yrs, 1), "x")))
(* selection age and years since selection only enter through their sum    *)
AskAgg == \E j \in {1, 2, 5} : /\ k4 \in {4, 6} /\ j <= X /\ obs' = <<"agg", j>>
   /\ Emit(Row("p_x", [x |-> X - j, s |-> S + j, t |-> RStr(tt)], acc.S, "x"))
   /\ (Living => Emit(Row("f_r", [x |-> X - j, s |-> S + j, r |-> 0, t |-> RStr(tt)], F(Mo, X, S, tt), "x")))
Ask == Run /\ UNCHANGED <<mi, xs, k4, acc>> /\ (AskP \/ AskLate \/ AskQ \/ AskFrac \/ AskF \/ AskL \/ AskAgg)
Init == LifeInit
Next == Tick \/ Ask
ModelsX == Models   \* substituted through this: TLC caches Models as a constant
ASSUME DefAll([j \in 1..Len(Models) |-> Models[j][1]])
=============================================================================
