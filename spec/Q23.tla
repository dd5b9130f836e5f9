-------------------------------- MODULE Q23 --------------------------------
(* P23: m-thly insurances and annuities from first principles (class Mthly) *)
EXTENDS Mth
Few(M) == {<<M.x0, 0>>, <<M.x0 + 1, 1>>}
B20U == [B20 EXCEPT !.id = "B20U", !.frac = "udd"]
Bases == <<
  <<T40, Q(1, 10), Few(T40), {1, 2, 4, 12}, 9>>, <<T40, Q(1, 500), {<<41, 1>>}, {2}, 9>>, <<T0, "1", {<<0, 1>>}, {4}, 9>>, <<T40, "0", {<<41, 1>>}, {2, 12}, 9>>, <<T40, Q(1, 20), {<<40, 0>>}, {0, 3}, 9>>,
  <<T40C, Q(1, 20), {<<40, 0>>, <<40, 2>>}, {2, 4}, 9>>, <<TRC(1, 6), Q(1, 16), {<<TRC(1, 6).x0, 1>>}, {4, 12}, 9>>,
  <<T0, Q(1, 20), {<<0, 0>>, <<1, 1>>}, {2, 6}, 9>>, <<T97, Q(1, 4), {<<97, 0>>, <<97, 2>>}, {2, 4}, 9>>, <<TSq, Q(1, 8), {<<30, 0>>}, {2}, 3>>,
  <<TR(1, 7), Q(1, 8), Few(TR(1, 7)), {2, 12}, 9>>, <<TR(2, 9), Q(Hash(<<Seed, "i23">>, 150) + 1, 1000), {<<TR(2, 9).x0, 1>>}, {4, 5}, 10>>,
  <<S60, Q(1, 10), {<<60, 0>>, <<60, 1>>, <<61, 2>>}, {2, 4}, 9>>, <<SR(1, 6), Q(1, 25), {<<SR(1, 6).x0, 0>>}, {2, 3}, 9>>, <<S60C, Q(1, 16), {<<60, 0>>, <<61, 1>>}, {4}, 9>>,
  <<U12, Q(1, 5), {<<0, 0>>, <<4, 3>>}, {2, 12}, 14>>, <<U12, Q(1, 5), {<<4, 3>>}, {0}, 14>>, <<B20, Q(1, 25), {<<10, 4>>}, {4}, 7>>, <<B20U, Q(1, 25), {<<10, 4>>}, {2, 4}, 7>>,
  <<CF1, Q(1, 25), {<<30, 2>>}, {2}, 4>>, <<CF1, Q(1, 20), {<<0, 0>>}, {12}, 1>>, <<CF2, "0", {<<5, 1>>}, {4}, 2>>, <<CF1, Q(1, 25), {<<30, 2>>}, {0}, 4>>,
  <<T40, "0", {<<40, 0>>, <<40, 2>>}, {0}, 9>>, <<U12, "0", {<<4, 3>>}, {0, 2, 3}, 14>>, <<TR(1, 7), "0", {<<TR(1, 7).x0, 0>>}, {4}, 9>>, <<S60, "0", {<<60, 1>>}, {2}, 9>>, <<GOM, "0", {<<50, 5>>}, {2}, 2>>,
  <<GOM, Q(1, 20), {<<30, 0>>, <<50, 5>>}, {2, 12}, 2>> >>
(* from a time j periods after selection, over the rest up to now *)
Starts == {j \in 0..k : j \in {0, 1, m, m + 1, k \div 2}}
AskProb == m > 0 /\ k > 0 /\ \E j \in Starts : RLt(0, P(Mo, X, S, Q(j, m))) /\ obs' = <<"prob", j>>
  /\ LET s1 == RAdd(S, Q(j, m)) A == [s |-> "none", x |-> X, s_m |-> (S * m) + j]
         Rw(c, a, e) == Emit([w |-> Mo.id, i |-> RStr(ii), k |-> Kn, cls |-> Cls, m |-> m, c |-> c, a |-> [x |-> X, s_m |-> (S * m) + j] @@ a, e |-> RStr(e), tol |-> "x"])
     IN /\ Rw("p_m", [t_m |-> k - j], P(Mo, X, s1, Q(k - j, m)))
        /\ Rw("q_m", [t_m |-> k - j], QQ(Mo, X, s1, 0, Q(k - j, m)))
        /\ Rw("q_m", [t_m |-> 1, u_m |-> k - j], QQ(Mo, X, s1, Q(k - j, m), Q(1, m)))
        /\ Rw("q_m", [t_m |-> m + 1, u_m |-> k - j], QQ(Mo, X, s1, Q(k - j, m), Q(m + 1, m)))
AskV == m > 0 /\ xs \in {CHOOSE z \in BasisSeq[bi][3] : TRUE} /\ obs' = <<"v">>
  /\ Emit([w |-> Mo.id, i |-> RStr(ii), k |-> Kn, cls |-> Cls, m |-> m, c |-> "v_m", a |-> [k |-> k], e |-> RStr(acc.v), tol |-> "x"])
AskGen == k > 0 /\ Whole /\ \E u \in {0, 1, 2} : u <= n /\ \E t \in TermsFrom(u), j \in {1, 2} : (m > 0 \/ j = 1) /\ obs' = <<"gen", u, t, j>>
  /\ Row("A_x", [u |-> u, t |-> t, benefit |-> Coef, moment |-> j], Df(IF j = 1 THEN "B" ELSE "B2", u), Pw(c0, j))
  /\ (IF j = 1 THEN Row("a_x", [u |-> u, t |-> t, benefit |-> Coef], Df("Ba", u), R(c0)) ELSE TRUE)
(* present values and probabilities period by period, as a table           *)
AskZ == k > 0 /\ Whole /\ m > 0 /\ k <= 40 /\ \E j \in {1, 2} : obs' = <<"Z", j>>
  /\ RowM("Z_m", [t |-> n, benefit |-> Coef, moment |-> j],
          [Z |-> Mat([l \in 1..k |-> RStr(RPow(RMul(Ben(Q(l - 1, m)), Vt(ii, Q(l, m))), j))]),
           q |-> Mat([l \in 1..k |-> RStr(QQ(Mo, X, S, Q(l - 1, m), Q(1, m)))]), m |-> Mat([l \in 1..k |-> l])], Pw(c0, j), "x")
Ask == Run /\ UNCHANGED <<bi, xs, m, k, acc, log>> /\ (AskCommon \/ AskForever \/ AskProb \/ AskV \/ AskGen \/ AskZ)
Init == MthInit
Next == Tick \/ Ask
BasesX == Bases
ASSUME DefAll([j \in 1..Len(Bases) |-> Bases[j][1]])
=============================================================================
