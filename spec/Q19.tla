-------------------------------- MODULE Q19 --------------------------------
(***************************************************************************)
(* P19: reserves between anniversaries, and full preliminary term reserves.*)
(* State: a policy in force followed year by year; a query looks a quarter,*)
(* half or three quarters of a year ahead, or asks for the modified        *)
(* premiums and reserves.                                                  *)
(***************************************************************************)
EXTENDS Portfolio
Pk == RAdd(Claims, R(Po.en))
---------------------------------------------------------------------------
(* interim reserves of a life aged [X] at duration n + r; V_n and V_{n+1} are on record *)
Fr == {"0", Q(1, 4), Q(1, 2), Q(3, 4)}
Vs == IF n = 0 THEN "0" ELSE R(Hash(<<Seed, "v19", bi, pl, n>>, 500))
Nets == {"0", R(60)}
Bens == {0, Po.b}
Next1(net, b) == RDiv(RSub(RMul(RAdd(Vs, net), RAdd(1, ii)), RMul(RSub(1, P(Mo, X, n, 1)), b)), P(Mo, X, n, 1))   \* V_{n+1}
Interim(r, v1, b) == LET r1 == RSub(1, r)
                        p == P(Mo, X, RAdd(n, r), r1) IN RMul(Vt(ii, r1), RAdd(RMul(p, v1), RMul(RSub(1, p), b)))
Retro(r, net, b) == LET p == P(Mo, X, n, r) IN
   RDiv(RSub(RDiv(RAdd(Vs, net), Vt(ii, r)), RMul(RMul(RSub(1, p), b), Vt(ii, RSub(1, r)))), p)
AskInterim == S = 0 /\ Mo.kind \in {"table", "select"} /\ Alive(Mo, X, n + 1) /\ n < 7 /\ \E net \in Nets, b \in Bens :
  /\ obs' = <<"interim", net, b>>
  /\ \A r \in Fr : LET v1 == Next1(net, b)
                       e == RStr(Interim(r, v1, b))
                       A == [x |-> X, V0 |-> RStr(Vs), V1 |-> RStr(v1), n |-> n, b |-> b, premium |-> RStr(net), r |-> RStr(r), s |-> n, early |-> 0]
                       rw(a) == Emit([w |-> Mo.id, i |-> RStr(ii), c |-> "interim", a |-> a, e |-> <<e, e, "none", "none", "none", "none">>, tol |-> "x", sc |-> RStr(RAdd(Pk, 1000))])
                   IN rw(A) /\ \A k \in 1..n : rw([A EXCEPT !.r = RStr(RAdd(r, k)), !.s = n - k])
Inv_Interim == (Run /\ S = 0 /\ Mo.kind \in {"table", "select"} /\ Alive(Mo, X, n + 1) /\ n < 7) => \A net \in Nets, b \in Bens, r \in Fr :
   RNear(Interim(r, Next1(net, b), b), Retro(r, net, b))
---------------------------------------------------------------------------
(* full preliminary term: the first premium pays for the first year's risk, *)
(* the policy is then as if issued a year later                             *)
NetPol == Po.g = "eq" /\ Po.st = 0 /\ Po.ip = 0 /\ Po.rp = 0 /\ REq(Po.im, 0) /\ REq(Po.rm, 0) /\ Years > 1 /\ Alive(Mo, X, S + 1)
Prem1 == RMul(Vf(ii), RMul(Po.b, RSub(1, P(Mo, X, S, 1))))
Ben(t) == RAdd(RMul(Po.b, ValA(t, 1)), RMul(Po.en, Vn(t, 1)))
Prem2 == RDiv(Ben(1), ValA0(1))
FPT(t) == IF t <= 1 THEN "0" ELSE RSub(Ben(t), RMul(Prem2, ValA0(t)))
BenC(t) == RAdd(RMul(Po.b, ValAc(t, 1)), RMul(Po.en, Vn(t, 1)))
FPTc(t) == IF t <= 1 THEN "0" ELSE RSub(BenC(t), RMul(RDiv(BenC(1), ValA0c(1)), ValA0c(t)))
Shortcut == Po.N = WHOLE \/ Po.en = Po.b
AskFPT == NetPol /\ (RLt(0, ii) \/ ~Shortcut) /\ obs' = <<"fpt">>
  /\ LET A == [x |-> X, s |-> S, t |-> n, n |-> Po.N, b |-> Po.b, endowment |-> Po.en] IN
     /\ RowD("FPT_policy_value", A, FPT(n), Pk)
     /\ (IF Closed THEN RowP("c" \o Mo.kind, "FPT_policy_value", [discrete |-> FALSE] @@ A, FPTc(n), Pk, TolC) ELSE TRUE)
     /\ (IF n > 0 THEN TRUE ELSE
           /\ RowD("FPT_premium", [x |-> X, s |-> S, b |-> Po.b, n |-> Po.N, first |-> TRUE], Prem1, Pk)
           /\ (IF Po.en > 0 THEN TRUE ELSE RowD("FPT_premium", [x |-> X, s |-> S, b |-> Po.b, n |-> Po.N], Prem2, Pk)))
(* the modified premiums are worth what the net premiums are worth, and build up the modified reserve *)
Inv_FPT == (Run /\ NetPol /\ n = 0 /\ ~Endless) => Near(RAdd(Prem1, RMul(Prem2, RSub(ValA0(0), 1))), Ben(0))
RECURSIVE FundF(_, _)
FundF(k, f) == IF k = n THEN f ELSE
   LET p == P(Mo, X, S + k, 1) s0 == P(Mo, X, S, k) IN
   FundF(k + 1, RSub(RMul(RAdd(f, RMul(s0, IF k = 0 THEN Prem1 ELSE Prem2)), RAdd(1, ii)), RMul(RMul(s0, RSub(1, p)), Po.b)))
Inv_FundF == (Run /\ NetPol /\ InForce) => Near(FundF(0, "0"), RMul(sv, FPT(n)))
Ask == Run /\ InForce /\ UNCHANGED <<bi, xs, pl, G, n, sv, fund>> /\ (AskInterim \/ AskFPT)
Init == PolicyInit
Next == Year \/ Ask
=============================================================================
