-------------------------------- MODULE Q02 --------------------------------
(* P02: one form of the survival function determines all the others        *)
EXTENDS Lifeline
Models == <<
  <<CF1, {<<0, 0>>, <<30, 2>>, <<5, 7>>}, 12>>,
  <<Bta("U90", 90, R(1)), {<<0, 0>>, <<20, 0>>, <<30, 5>>}, 14>>,
  <<Bta("B80", 80, R(2)), {<<0, 0>>, <<20, 0>>, <<30, 5>>}, 14>>,
  <<SULTM, {<<20, 0>>, <<40, 0>>, <<50, 10>>}, 12>>,
  <<GOM, {<<20, 0>>, <<45, 3>>}, 10>>,
  <<SM1, {<<0, 0>>, <<0, 3>>, <<30, 0>>, <<30, 1>>, <<45, 6>>}, 14>>,
  <<SelMu("SM2", Q(1, 50), "0", Q(Hash(Seed, 9) + 1, 300)), {<<25, 0>>, <<25, 2>>, <<40, 5>>}, 12>> >>
Aggregate == Mo.kind # "selmu"
A0(t) == [x |-> X, s |-> S, t |-> RStr(t)]
AskP == Emit(Row("p_x", A0(tt), acc.S, "1e-7")) /\ obs' = <<"p">>
AskQ == \E u \in {0, 1, 4, 6}, t \in {1, 4, 10} :
   /\ obs' = <<"q", u, t>>
   /\ k4 = u + t
   /\ Emit(Row("q_x", [x |-> X, s |-> S, t |-> RStr(T(t)), u |-> RStr(T(u))], QQ(Mo, X, S, T(u), T(t)), "1e-7"))
AskF == obs' = <<"f">> /\ Emit(Row("f_x", A0(tt), F(Mo, X, S, tt), "1e-6"))
(* the force: at time t after [x]+s it is the force at duration s + t      *)
AskMu == obs' = <<"mu">> /\ Emit(Row("mu_x", A0(tt), Mu(Mo, X, RAdd(S, tt)), "1e-6"))
(* lives are proportional to survival from the same selection *)
AskL == Whole /\ obs' = <<"l">> /\
   Emit(Row("l_ratio", [x |-> X, s |-> S + Yrs, x0 |-> X, s0 |-> S], acc.S, "1e-7"))
AskD == Whole /\ obs' = <<"d">> /\
   Emit(Row("d_ratio", [x |-> X, s |-> S + Yrs, x0 |-> X, s0 |-> S], QQ(Mo, X, S, Yrs, 1), "1e-7"))
Ask == Run /\ UNCHANGED <<mi, xs, k4, acc>> /\ (AskP \/ AskQ \/ AskF \/ AskMu \/ AskL \/ AskD)
Init == LifeInit
Next == Tick \/ Ask
ModelsX == Models   \* substituted through this: TLC caches Models as a constant
ASSUME DefAll([j \in 1..Len(Models) |-> Models[j][1]])
=============================================================================
