-------------------------------- MODULE Q05 --------------------------------
(* P05: fractional ages: uniform deaths or constant force within each year *)
EXTENDS Lifeline
AgesOf(M) == UNION {{<<M.x0 + j, 0>>, <<M.x0, j>>} : j \in 0..(Len(M.l) - 2)}
U90 == Bta("U90", 90, R(1))
Models == <<
  <<T40, AgesOf(T40), 26>>, <<T40C, AgesOf(T40C), 22>>, <<T0, AgesOf(T0), 20>>, <<T0C, AgesOf(T0C), 18>>,
  <<T97, {<<97, 0>>, <<98, 1>>}, 26>>, <<TSq, {<<30, 0>>, <<31, 1>>}, 15>>,
  <<TR(1, 7), AgesOf(TR(1, 7)), 30>>, <<TRC(1, 6), AgesOf(TRC(1, 6)), 22>>,
  <<S60, {<<60, 0>>, <<60, 1>>, <<61, 0>>, <<60, 3>>, <<62, 2>>}, 26>>, <<S60C, {<<60, 0>>, <<61, 1>>, <<60, 2>>}, 22>> >>
(* start at fractional age r (in twelfths, also beyond a whole year), then survive u, die within t *)
Rs == {0, 3, 5, 9, 12, 17, 24}
TT(k) == Q(k, 12)
St(r) == RAdd(S, TT(r))
(* all lives of a closed table are gone one year after the last age with lives; stay before that for cfm *)
Inside(d) == LET k == RFloor(d) IN RLt(0, LInt(Mo, X, k)) /\ (Mo.frac = "cfm" => RLt(0, LInt(Mo, X, k + 1)))
AliveAt(r) == Inside(St(r))
ArgR(r) == [x |-> X, s |-> S, r |-> RStr(TT(r))]
InYear(d) == ~RIsInt(d)         \* the force and the density jump at whole years
AskL == \E r \in {0, 4, 8, 11} : obs' = <<"l", r>> /\ LET d == RAdd(tt, TT(r)) IN
   Emit(Row("lr_ratio", [x |-> X, s |-> S, r |-> RStr(d)], RDiv(L(Mo, X, RAdd(S, d)), L(Mo, X, S)), "x"))
AskP == \E r \in Rs : AliveAt(r) /\ obs' = <<"p", r>>
   /\ Emit(Row("p_r", ArgR(r) @@ [t |-> RStr(tt)], P(Mo, X, St(r), tt), "x"))
   /\ Emit([w |-> Mo.id, i |-> "0.05", c |-> "E_r", a |-> ArgR(r) @@ [t |-> RStr(tt)],
            e |-> RStr(RMul(Vt(Q(1, 20), tt), P(Mo, X, St(r), tt))), tol |-> "x"])
AskQ == \E r \in Rs, u \in {0, 1, 4, 5, 9} : u <= k4 /\ AliveAt(r) /\ obs' = <<"q", r, u>>
   /\ Emit(Row("q_r", ArgR(r) @@ [t |-> RStr(T(k4 - u)), u |-> RStr(T(u))], QQ(Mo, X, St(r), T(u), T(k4 - u)), "x"))
AskMu == k4 = 0 /\ \E r \in Rs \cup {1, 7, 29} : Inside(St(r)) /\ InYear(St(r)) /\ obs' = <<"mu", r>>
   /\ Emit(Row("mu_r", ArgR(r), Mu(Mo, X, St(r)), "x"))
AskF == \E r \in Rs : LET d == RAdd(St(r), tt) IN AliveAt(r) /\ Inside(d) /\ InYear(d) /\ obs' = <<"f", r>>
   /\ Emit(Row("f_r", ArgR(r) @@ [t |-> RStr(tt)], F(Mo, X, St(r), tt), "x"))
(* a life table's survival functions follow its fractional assumption too  *)
AskTable == Mo.kind = "table" /\ Inside(RAdd(S, tt)) /\ obs' = <<"table">>
   /\ Emit(RowK("tab", "S", [x |-> X, s |-> S, t |-> RStr(tt)], acc.S, "x"))
   /\ (InYear(tt) => Emit(RowK("tab", "f", [x |-> X, s |-> S, t |-> RStr(tt)], F(Mo, X, S, tt), "x")))
   /\ (InYear(tt) => Emit(RowK("tab", "mu", [x |-> X, t |-> RStr(RAdd(S, tt))], Mu(Mo, X, RAdd(S, tt)), "x")))
Ask == Run /\ UNCHANGED <<mi, xs, k4, acc>> /\ (AskL \/ AskP \/ AskQ \/ AskMu \/ AskF \/ AskTable)
Init == LifeInit
Next == Tick \/ Ask
(* UDD: fractional mortality t q / (1 - r q); CFM: independent of r        *)
Inv_Formula == (Run /\ k4 < 4 /\ Living) => \A r \in {0, 3, 5} : (12 >= (3 * k4) + r /\ Inside(S)) =>
   LET q == QQ(Mo, X, S, 0, 1) IN
   IF Mo.frac = "udd" THEN REq(QQ(Mo, X, St(r), 0, tt), RDiv(RMul(tt, q), RSub(1, RMul(TT(r), q))))
   ELSE RNear(P(Mo, X, St(r), tt), RPowR(RSub(1, q), tt))
ModelsX == Models   \* substituted through this: TLC caches Models as a constant
ASSUME DefAll([j \in 1..Len(Models) |-> Models[j][1]])
=============================================================================
