-------------------------------- MODULE Q13 --------------------------------
(***************************************************************************)
(* P13: net premiums by the equivalence principle.  State: a cohort and its*)
(* policy, one year at a time.  A query prices a policy; the invariants run*)
(* the insurer's fund of such a policy to its end and find it used up.     *)
(***************************************************************************)
EXTENDS Cohort
Ages(M) == {<<M.x0, 0>>, <<M.x0, 1>>, <<M.x0 + 1, 0>>, <<M.x0 + 1, 2>>}
Bases == <<
  <<T40, Q(1, 10), Ages(T40), 9>>, <<T40, "0", {<<40, 0>>}, 9>>, <<T40, Q(1, 500), {<<40, 1>>}, 9>>, <<T0, "1", {<<0, 1>>}, 9>>, <<T0, Q(1, 20), {<<0, 0>>, <<1, 1>>}, 9>>, <<T97, Q(1, 4), {<<97, 0>>}, 9>>,
  <<TR(1, 7), Q(1, 8), Ages(TR(1, 7)), 9>>, <<TR(2, 9), Q(Hash(<<Seed, "i13">>, 150) + 1, 1000), {<<TR(2, 9).x0, 1>>}, 9>>,
  <<S60, Q(1, 10), {<<60, 0>>, <<60, 1>>, <<61, 2>>}, 9>>, <<SR(1, 6), Q(1, 25), {<<SR(1, 6).x0, 0>>}, 9>>,
  <<U12, Q(1, 5), {<<0, 0>>, <<4, 3>>}, 14>>, <<CF1, Q(1, 25), {<<0, 0>>, <<30, 2>>}, 5>>, <<B20, Q(1, 25), {<<10, 4>>}, 8>>,
  <<SULTM, Q(1, 20), {<<60, 0>>, <<50, 10>>}, 5>> >>
Row13(a, b, e) == Emit([w |-> Mo.id, i |-> RStr(ii), c |-> "net_premium", a |-> [x |-> X, s |-> S] @@ a, e |-> RStr(e), tol |-> "x", sc |-> RStr(b)])
Bs == {1, 1000}
Costs == {0, 25}
Ts == IF Extinct THEN {n, WHOLE} ELSE {n}
An(u, t) == Ann(Mo, ii, X, S, u, t, One)
Ia(t) == Ins(Mo, ii, X, S, 0, t, 1, LAMBDA k : R(k), Zero)
Insu(u, t, b, en) == Ins(Mo, ii, X, S, u, t, 1, LAMBDA k : R(b), R(en))
(* premium for m years so that income = value of benefits + costs *)
Prem(val, m, c) == RDiv(RAdd(val, c), An(0, m))
PremRet(val, m, c) == RDiv(RAdd(val, c), RSub(An(0, m), Ia(m)))
Pays == 1..(IF n < 3 THEN n ELSE 3)
AskTerm == n > 0 /\ \E t \in Ts, b \in Bs, en \in {0, 250, 1000}, c \in Costs : obs' = <<"term", t, b, en, c>>
  /\ LET v == Insu(0, n, b, en) IN
     /\ (t # WHOLE \/ en = 0)
     /\ Row13([t |-> t, b |-> b, endowment |-> en, initial_cost |-> c], b + c, Prem(v, n, c))
     /\ \A m \in Pays : Row13([t |-> t, b |-> b, endowment |-> en, n |-> m, initial_cost |-> c], b + c, Prem(v, m, c))
     /\ (IF RLt(Ia(n), An(0, n)) THEN Row13([t |-> t, b |-> b, endowment |-> en, return_premium |-> TRUE, initial_cost |-> c], RMax(R(b + c), PremRet(v, n, c)), PremRet(v, n, c)) ELSE TRUE)
AskDefer == n > 1 /\ \E u \in 1..(n - 1), b \in Bs, ann \in BOOLEAN, c \in Costs : \E t \in (IF Extinct THEN {n - u, WHOLE} ELSE {n - u}) :
  obs' = <<"defer", u, t, b, ann, c>>
  /\ LET v == IF ann THEN RMul(b, An(u, n - u)) ELSE Insu(u, n - u, b, 0)
         A0 == [t |-> t, u |-> u, b |-> b, initial_cost |-> c] @@ (IF ann THEN [annuity |-> TRUE] ELSE [annuity |-> FALSE])
     IN /\ Row13(A0, b + c, Prem(v, u, c))
        /\ \A m \in Pays : Row13([n |-> m] @@ A0, b + c, Prem(v, m, c))
        /\ (IF RLt(Ia(u), An(0, u)) THEN Row13([return_premium |-> TRUE] @@ A0, RMax(R(b + c), PremRet(v, u, c)), PremRet(v, u, c)) ELSE TRUE)
        /\ (IF ~ann /\ t # WHOLE THEN Row13([endowment |-> 250] @@ A0, b + c, Prem(Insu(u, n - u, b, 250), u, c)) ELSE TRUE)
(* whole life and endowment insurance: the premium determines the values    *)
RowE(c, a, e) == Emit([w |-> Mo.id, i |-> RStr(ii), c |-> c, a |-> a, e |-> RStr(e), tol |-> "x"])
AskEquiv == n > 0 /\ RLt(0, ii) /\ \E b \in Bs : obs' = <<"equiv", b>>
  /\ LET A == RAdd(acc.A, RMul(acc.v, acc.S))
         p == RDiv(RMul(b, A), acc.a)
     IN /\ RowE("insurance_equivalence", [premium |-> RStr(p), b |-> b], A)
        /\ RowE("annuity_equivalence", [premium |-> RStr(p), b |-> b], acc.a)
        /\ RowE("premium_equivalence", [A |-> RStr(A), b |-> b], p)
        /\ RowE("premium_equivalence", [a |-> RStr(acc.a), b |-> b], p)
        /\ RowE("premium_equivalence", [a |-> RStr(acc.a), A |-> RStr(acc.A), b |-> b], RDiv(RMul(b, acc.A), acc.a))
(* payable continuously / at the moment of death, where the year has a closed form *)
Closed == Mo.frac = "udd" \/ Mo.kind = "cforce" \/ (Mo.kind = "beta" /\ REq(Mo.alpha, 1))
RowC(a, b, e) == Emit([w |-> Mo.id, i |-> RStr(ii), c |-> "net_premium", k |-> "c" \o Mo.kind, a |-> [x |-> X, s |-> S, discrete |-> FALSE] @@ a, e |-> RStr(e),
                       tol |-> IF Mo.kind \in {"table", "select"} THEN "5e-6" ELSE "1e-6", sc |-> RStr(b)])
InC(u, t, b) == RMul(b, InsC(Mo, ii, X, S, u, R(t), 1, 1, 0))
AnC(u, t) == AnnC(Mo, ii, X, S, u, R(t), 1, 0)
AskCont == Closed /\ n > 0 /\ n < 6 /\ \E b \in Bs, c \in Costs : obs' = <<"cont", b, c>>
  /\ RowC([t |-> n, b |-> b, initial_cost |-> c], b + c, RDiv(RAdd(InC(0, n, b), c), AnC(0, n)))
  /\ RowC([t |-> n, b |-> b, n |-> 1, initial_cost |-> c], b + c, RDiv(RAdd(InC(0, n, b), c), AnC(0, 1)))
  /\ RowC([t |-> n, b |-> b, endowment |-> 250], b + c, RDiv(RAdd(InC(0, n, b), RMul(250, RMul(acc.v, acc.S))), AnC(0, n)))
  /\ (IF n > 1 THEN RowC([t |-> n - 1, u |-> 1, b |-> b, annuity |-> TRUE], b, RDiv(RMul(b, AnC(1, n - 1)), AnC(0, 1)))
                 /\ RowC([t |-> n - 1, u |-> 1, b |-> b], b, RDiv(InC(1, n - 1, b), AnC(0, 1))) ELSE TRUE)
  /\ LET IA == InsC(Mo, ii, X, S, 0, R(n), 1, 0, 1) IN
     IF RLt(RMul(2, IA), AnC(0, n)) THEN RowC([t |-> n, b |-> b, return_premium |-> TRUE], b, RDiv(InC(0, n, b), RSub(AnC(0, n), IA))) ELSE TRUE
AskEquivC == Closed /\ n > 0 /\ n < 6 /\ RLt(0, ii) /\ \E b \in Bs : obs' = <<"equivc", b>>
  /\ LET a == AnC(0, n)
         A == RSub(1, RMul(Delta(ii), a))
         p == RDiv(RMul(b, A), a)
     IN /\ RowE("insurance_equivalence", [premium |-> RStr(p), b |-> b, discrete |-> FALSE], A)
        /\ RowE("annuity_equivalence", [premium |-> RStr(p), b |-> b, discrete |-> FALSE], a)
        /\ RowE("premium_equivalence", [A |-> RStr(A), b |-> b, discrete |-> FALSE], p)
        /\ RowE("premium_equivalence", [a |-> RStr(a), b |-> b, discrete |-> FALSE], p)
        /\ RowE("premium_equivalence", [a |-> RStr(a), A |-> RStr(A), b |-> b, discrete |-> FALSE], p)
Ask == Run /\ UNCHANGED <<bi, xs, n, acc>> /\ (AskTerm \/ AskDefer \/ AskEquiv \/ AskCont \/ AskEquivC)
Init == CohortInit
Next == Year \/ Ask
(* the fund per policy sold: premiums in advance, benefits at the end of the year, returned premiums included *)
RECURSIVE Fund(_, _, _, _, _, _, _)
Fund(k, f, p, m, b, ret, last) ==
  IF k = last THEN f ELSE
  LET s0 == P(Mo, X, S, k)
      dd == IF Alive(Mo, X, S + k) THEN RMul(s0, QQ(Mo, X, S + k, 0, 1)) ELSE "0"
      inc == IF k < m THEN RMul(p, s0) ELSE "0"
      back == IF ret THEN RMul(p, k + 1) ELSE "0"
  IN Fund(k + 1, RSub(RMul(RAdd(f, inc), RAdd(1, ii)), RMul(RAdd(b, back), dd)), p, m, b, ret, last)
Inv_Fund == (Run /\ n > 0 /\ Mo.kind # "makeham") => \A b \in Bs :
   /\ REq(Fund(0, "0", Prem(Insu(0, n, b, 250), n, 0), n, R(b), FALSE, n), RMul(250, acc.S))
   /\ (RLt(Ia(n), An(0, n)) => REq(Fund(0, "0", PremRet(Insu(0, n, b, 250), n, 0), n, R(b), TRUE, n), RMul(250, acc.S)))
BasesX == Bases   \* substituted through this: TLC caches Bases as a constant
ASSUME DefAll([j \in 1..Len(Bases) |-> Bases[j][1]])
=============================================================================
