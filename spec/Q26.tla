-------------------------------- MODULE Q26 --------------------------------
(***************************************************************************)
(* P26: extra mortality risk.  State: an impaired life aged [x]+s followed *)
(* year by year; surv is its probability of being alive, built from the    *)
(* adjusted one-year rates.  The invariants say what each adjustment means *)
(* for the whole survival function of the underlying model.                *)
(***************************************************************************)
EXTENDS Worlds
CONSTANTS BasisSeq, NoQuery
VARIABLES bi, xs, rk, n, surv, obs
vars == <<bi, xs, rk, n, surv, obs>>
AF(e) == <<"ADD_FORCE", e>>
MF(e) == <<"MULTIPLY_FORCE", e>>
AA(e) == <<"ADD_AGE", e>>
MR(e) == <<"MULTIPLY_RATE", e>>
None == {<<"", "0">>}
Rk == {AF("0"), AF(Q(1, 20)), AF(Q(3, 2)), MF("0"), MF(Q(1, 2)), MF("1"), MF("3"), AA("0"), AA("1"), AA("2"), MR("0"), MR(Q(1, 2)), MR("1"), MR(Q(5, 4)), MR("3"),
       <<"", "0">>, <<"", Q(1, 2)>>, AF(Q(Hash(<<Seed, "af">>, 300), 1000)), MF(Q(Hash(<<Seed, "mf">>, 300), 100)), MR(Q(Hash(<<Seed, "mr">>, 200), 100))}
Ages(M) == {<<M.x0, 0>>, <<M.x0 + 1, 0>>, <<M.x0, 1>>, <<M.x0, 2>>}
Bases == << <<T40, Ages(T40)>>, <<T40C, Ages(T40C)>>, <<T0, Ages(T0)>>, <<T97, Ages(T97)>>, <<T1, Ages(T1)>>, <<TR(1, 7), Ages(TR(1, 7))>>, <<TR(2, 9), Ages(TR(2, 9))>>,
   <<S60, Ages(S60) \cup {<<62, 1>>}>>, <<SR(1, 6), Ages(SR(1, 6))>>, <<U12, {<<0, 0>>, <<4, 3>>}>>, <<B20, {<<10, 4>>}>>, <<CF1, {<<3, 0>>, <<30, 2>>}>>, <<CF2, {<<0, 0>>}>>,
   <<GOM, {<<30, 0>>, <<90, 9>>}>>, <<SULTM, {<<60, 0>>, <<99, 9>>}>> >>
Mo == BasisSeq[bi][1]
X == xs[1]
S == xs[2]
kind == rk[1]
e == rk[2]
p0(k) == P(Mo, X, S + k, 1)
(* one-year survival in year k of an impaired life *)
Older == X + RFloor(e)
Px(k) == CASE kind = "" -> p0(k)
           [] kind = "ADD_FORCE" -> RMul(p0(k), RExp(RNeg(e)))
           [] kind = "MULTIPLY_FORCE" -> (IF REq(p0(k), 0) THEN "0" ELSE RPowR(p0(k), e))
           [] kind = "ADD_AGE" -> P(Mo, Older, S + k, 1)
           [] kind = "MULTIPLY_RATE" -> RMax("0", RSub(1, RMul(e, RSub(1, p0(k)))))
Ok(k) == /\ Alive(Mo, X, S + k) /\ (kind = "ADD_AGE" => Alive(Mo, Older, S + k))
         /\ (kind = "MULTIPLY_FORCE" => (RLt(0, p0(k)) \/ RLt(0, e)))
Run == obs = NoQuery
Init == /\ bi \in 1..Len(BasisSeq) /\ xs \in BasisSeq[bi][2] /\ rk \in Rk /\ n = 0 /\ surv = "1" /\ obs = NoQuery
        /\ Alive(BasisSeq[bi][1], xs[1], xs[2])
Tick == /\ Run /\ n < 7 /\ Ok(n) /\ RLt(0, surv)
        /\ n' = n + 1 /\ surv' = RRnd(RMul(surv, Px(n)), 45) /\ UNCHANGED <<bi, xs, rk, obs>>
A0 == [risk |-> kind, extra |-> (IF RIsInt(e) THEN RStr(e) ELSE RStr(e))]
RowT(c, a, v, tol) == Emit([w |-> Mo.id, k |-> Mo.kind, c |-> c, a |-> A0 @@ a, e |-> v, tol |-> tol])
Row(c, a, v) == RowT(c, a, v, "x")
AskOne == Run /\ Ok(n) /\ obs' = <<"one">> /\ UNCHANGED <<bi, xs, rk, n, surv>>
  /\ Row("risk_p", [x |-> X, s |-> S + n], RStr(Px(n))) /\ Row("risk_q", [x |-> X, s |-> S + n], RStr(RSub(1, Px(n))))
  /\ (IF S = 0 /\ n = 0 THEN Row("risk_get", [x |-> X], [p |-> RStr(Px(0)), q |-> RStr(RSub(1, Px(0)))]) ELSE TRUE)
(* a table built from the adjusted rates of an ultimate life has the impaired life's survival function *)
AskTable == Run /\ n > 0 /\ S = 0 /\ Mo.kind \in {"table", "beta"} /\ obs' = <<"table">> /\ UNCHANGED <<bi, xs, rk, n, surv>>
  /\ \A f \in {"p", "q"} : RowT("risk_table", [x |-> X, t |-> n, form |-> f, n |-> n], RStr(surv), "1e-6")      \* tables keep 7 digits
AskBad == Run /\ n = 0 /\ S = 0 /\ obs' = <<"bad">> /\ UNCHANGED <<bi, xs, rk, n, surv>>
  /\ \A b \in {<<"OTHER", "1">>, <<"ADD_FORCE", "-0.01">>, <<"MULTIPLY_RATE", "-1">>} :
       Emit([w |-> Mo.id, k |-> Mo.kind, c |-> "risk_bad", a |-> [risk |-> b[1], extra |-> b[2]], e |-> "=AssertionError", tol |-> "x"])
Next == Tick \/ AskOne \/ AskTable \/ AskBad
---------------------------------------------------------------------------
Inv_Prob == RLe(0, surv) /\ RLe(surv, 1)
(* a constant addition to the force discounts survival at that force *)
Inv_Add == (Run /\ kind = "ADD_FORCE") => RNear(surv, RMul(P(Mo, X, S, n), RExp(RNeg(RMul(e, n)))))
(* a multiple of the force is a power of the survival function *)
Inv_Mul == (Run /\ kind = "MULTIPLY_FORCE" /\ RLt(0, e)) => RTol(surv, IF Alive(Mo, X, S + n) THEN RPowR(P(Mo, X, S, n), e) ELSE "0", RPow(10, -35))
Inv_Age == (Run /\ n > 0 /\ kind = "ADD_AGE") => RNear(surv, P(Mo, Older, S, n))
Inv_Same == (Run /\ (kind = "" \/ (kind \in {"ADD_FORCE", "ADD_AGE"} /\ REq(e, 0)) \/ (kind \in {"MULTIPLY_FORCE", "MULTIPLY_RATE"} /\ REq(e, 1))))
              => RNear(surv, P(Mo, X, S, n))
(* more risk, fewer survivors *)
Inv_More == (Run /\ (kind = "ADD_FORCE" \/ (kind \in {"MULTIPLY_FORCE", "MULTIPLY_RATE"} /\ RLe(1, e)))) => RLe(surv, RAdd(P(Mo, X, S, n), RPow(10, -40)))
BasesX == Bases
ASSUME DefAll([j \in 1..Len(Bases) |-> Bases[j][1]])
=============================================================================
