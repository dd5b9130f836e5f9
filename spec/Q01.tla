-------------------------------- MODULE Q01 --------------------------------
(***************************************************************************)
(* P01: equivalent interest rates, discounting and annuities certain.      *)
(* State: a fund of 1 that earns interest quarter by quarter, and the value*)
(* of payments of 1/4 a quarter (in advance and in arrears) and of 1 a year*)
(***************************************************************************)
EXTENDS Products, TLC
CONSTANTS NoQuery
Seed == Param("seed", 1)
Rates == <<"0", Q(1, 20), Q(1, 4), R(1), RDec("0.0001"), Q(Hash(<<Seed, "i">>, 200) + 1, 1000), Q(Hash(<<Seed, "j">>, 50) + 1, 100)>>
Ms == {1, 2, 3, 4, 12, 52, 365}
(* a rate may be quoted as *)
Forms == {<<f, 0>> : f \in {"i", "delta", "d", "v"}} \cup {<<f, m>> : f \in {"i_m", "d_m"}, m \in {1, 2, 4, 12}}
VARIABLES ri, form, k4, acc, obs
vars == <<ri, form, k4, acc, obs>>
i == Rates[ri]
tt == Q(k4, 4)
Quoted(r, f) == CASE f[1] = "i" -> r [] f[1] = "delta" -> Delta(r) [] f[1] = "d" -> Disc(r) [] f[1] = "v" -> Vf(r)
                  [] f[1] = "i_m" -> Im(r, f[2]) [] f[1] = "d_m" -> Dm(r, f[2])
Quote(r, f) == IF f[2] = 0 THEN (f[1] :> RStr(Quoted(r, f))) ELSE (f[1] :> RStr(Quoted(r, f))) @@ [m |-> f[2]]
Init == /\ ri \in 1..Len(Rates) /\ form \in Forms
        /\ k4 = 0 /\ obs = NoQuery
        /\ acc = [fund |-> "1", due4 |-> "0", imm4 |-> "0", due1 |-> "0"]
Run == obs = NoQuery
Whole == (k4 % 4) = 0
Quarter == /\ Run /\ k4 < 60
           /\ k4' = k4 + 1
           /\ LET f1 == RMul(acc.fund, RPowR(RAdd(1, i), Q(1, 4)))
              IN acc' = [fund |-> f1,
                         due4 |-> RAdd(acc.due4, RDiv(Q(1, 4), acc.fund)),
                         imm4 |-> RAdd(acc.imm4, RDiv(Q(1, 4), f1)),
                         due1 |-> IF Whole THEN RAdd(acc.due1, RDiv(1, acc.fund)) ELSE acc.due1]
           /\ UNCHANGED <<ri, form, obs>>
Positive == RLt(0, i)
(* annuity certain, m payments a year of 1/m (0: continuous) *)
Cert(m, t, due) == IF ~Positive THEN R(t) ELSE
   RDiv(RSub(1, Vt(i, t)), IF m = 0 THEN Delta(i) ELSE IF due THEN Dm(i, m) ELSE Im(i, m))
Forever(m, due) == IF ~Positive THEN "inf" ELSE RDiv(1, IF m = 0 THEN Delta(i) ELSE IF due THEN Dm(i, m) ELSE Im(i, m))
Row(c, a, e) == [w |-> "interest", k |-> "interest", c |-> c, a |-> [q |-> Quote(i, form)] @@ a, e |-> IF e = "inf" THEN e ELSE RStr(e), tol |-> "x"]
AskRate == k4 = 0 /\ \E g \in {"i", "d", "v", "delta"} : obs' = <<"rate", g>>
   /\ Emit(Row("rate", [get |-> g], CASE g = "i" -> i [] g = "d" -> Disc(i) [] g = "v" -> Vf(i) [] g = "delta" -> Delta(i)))
(* nothing told: no interest *)
AskUntold == k4 = 0 /\ REq(i, 0) /\ obs' = <<"untold">> /\ Emit([k |-> "interest", c |-> "untold", a |-> <<>>, e |-> <<"0", "1", "0", "0", "1">>, tol |-> "x"])
AskV == obs' = <<"v">> /\ Emit(Row("v_t", [t |-> RStr(tt)], RDiv(1, acc.fund)))
AskA4 == obs' = <<"a4">> /\ k4 > 0
   /\ Emit(Row("annuity", [t |-> RStr(tt), m |-> 4, due |-> TRUE], acc.due4))
   /\ Emit(Row("annuity", [t |-> RStr(tt), m |-> 4, due |-> FALSE], acc.imm4))
AskA1 == obs' = <<"a1">> /\ Whole /\ k4 > 0
   /\ Emit(Row("annuity", [t |-> RStr(tt), m |-> 1, due |-> TRUE], acc.due1))
   /\ Emit(Row("annuity", [t |-> RStr(tt), m |-> 1, due |-> FALSE], RAdd(RSub(acc.due1, 1), RDiv(1, acc.fund))))
AskAm == k4 > 0 /\ \E m \in {m \in Ms \cup {0} : ((m * k4) % 4) = 0}, due \in BOOLEAN : obs' = <<"am", m, due>>
   /\ Emit(Row("annuity", [t |-> RStr(tt), m |-> m, due |-> due], Cert(m, tt, due)))
(* a term of no years is worth nothing *)
AskNone == k4 = 0 /\ \E m \in Ms \cup {0}, due \in BOOLEAN : obs' = <<"none", m, due>>
   /\ Emit(Row("annuity", [t |-> 0, m |-> m, due |-> due], R(0)))
AskForever == k4 = 0 /\ \E m \in Ms \cup {0}, due \in BOOLEAN : obs' = <<"ever", m, due>>
   /\ Emit(Row("annuity", [t |-> -1, m |-> m, due |-> due], Forever(m, due)))
AskMthly == k4 = 0 /\ form[2] = 0 /\ form[1] = "i" /\ \E m \in Ms : obs' = <<"m", m>>
   /\ Emit(Row("mthly", [kw |-> [i |-> RStr(i)], m |-> m], Im(i, m)))
   /\ Emit(Row("mthly", [kw |-> [d |-> RStr(Disc(i))], m |-> m], Dm(i, m)))
   /\ Emit(Row("mthly", [kw |-> [i_m |-> RStr(Im(i, m))], m |-> m], i))
   /\ Emit(Row("mthly", [kw |-> [d_m |-> RStr(Dm(i, m))], m |-> m], Disc(i)))
AskCont == k4 = 0 /\ form[2] = 0 /\ form[1] = "i" /\ obs' = <<"cont">>
   /\ Emit(Row("mthly", [kw |-> [i |-> RStr(i)], m |-> 0], Delta(i)))
   /\ Emit(Row("mthly", [kw |-> [d |-> RStr(Disc(i))], m |-> 0], Delta(i)))
(* doubling the force of interest squares the accumulation                 *)
AskDouble == k4 = 0 /\ form[2] = 0 /\ obs' = <<"double">>
   /\ Emit(Row("double_force", [kw |-> Quote(i, form)], Quoted(RSub(RPow(RAdd(1, i), 2), 1), form)))
Ask == Run /\ UNCHANGED <<ri, form, k4, acc>> /\ (AskUntold \/ AskRate \/ AskV \/ AskA4 \/ AskA1 \/ AskAm \/ AskNone \/ AskForever \/ AskMthly \/ AskCont \/ AskDouble)
Next == Quarter \/ Ask
Inv_Fund == Run => RNear(acc.fund, RDiv(1, Vt(i, tt)))
Inv_Annuity == (Run /\ k4 > 0) => RTol(acc.due4, Cert(4, tt, TRUE), RPow(10, -25)) /\ RTol(acc.imm4, Cert(4, tt, FALSE), RPow(10, -25))
                                  /\ (Whole => RTol(acc.due1, Cert(1, tt, TRUE), RPow(10, -25)))
(* i > i(2) > i(4) > delta > d(4) > d(2) > d *)
Inv_Order == (Run /\ k4 = 0 /\ Positive) => /\ RLt(Im(i, 2), i) /\ RLt(Im(i, 4), Im(i, 2)) /\ RLt(Delta(i), Im(i, 4))
                /\ RLt(Dm(i, 4), Delta(i)) /\ RLt(Dm(i, 2), Dm(i, 4)) /\ RLt(Disc(i), Dm(i, 2))
(* every quotation of the rate means the same accumulation                 *)
Accum(f, z) == CASE f[1] = "i" -> RAdd(1, z) [] f[1] = "delta" -> RExp(z) [] f[1] = "d" -> RDiv(1, RSub(1, z)) [] f[1] = "v" -> RDiv(1, z)
                 [] f[1] = "i_m" -> RPow(RAdd(1, RDiv(z, f[2])), f[2]) [] f[1] = "d_m" -> RDiv(1, RPow(RSub(1, RDiv(z, f[2])), f[2]))
Inv_Quote == Run => RNear(Accum(form, Quoted(i, form)), RAdd(1, i))
=============================================================================
