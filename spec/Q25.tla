-------------------------------- MODULE Q25 --------------------------------
(***************************************************************************)
(* P25: Woolhouse's formula.  State: a life aged [x]+s followed year by    *)
(* year to the end of life; the annual values and survival probabilities   *)
(* of every year passed are kept.  A query is asked once the whole life    *)
(* annuities are known: each m-thly value is that of the annual annuities  *)
(* at the start and the end of the term with two or three correction terms.*)
(***************************************************************************)
EXTENDS Worlds
CONSTANTS BasisSeq, NoQuery
VARIABLES bi, xs, n, acc, log, obs
vars == <<bi, xs, n, acc, log, obs>>
Few(M) == {<<M.x0 + 1, 0>>, <<M.x0 + 1, 1>>}
(* model, i, {<<x, s>>}, {m}, longest deferral, longest term *)
Bases == <<
  <<T40, Q(1, 10), Few(T40), {2, 4, 12}, 3>>, <<T0, Q(1, 20), {<<0, 0>>, <<1, 1>>}, {2, 6}, 3>>, <<T97, Q(1, 4), {<<98, 1>>}, {1, 4}, 5>>, <<T40, "0", {<<41, 0>>}, {4}, 3>>, <<CF1, "0", {<<30, 2>>}, {2}, 4>>, <<S60, "0", {<<61, 1>>}, {2}, 3>>,
  <<T40C, Q(1, 20), {<<40, 1>>}, {4}, 4>>, <<TR(1, 7), Q(1, 8), Few(TR(1, 7)), {2, 12}, 4>>, <<TR(2, 9), Q(Hash(<<Seed, "i25">>, 150) + 1, 1000), {<<TR(2, 9).x0, 1>>}, {3, 4}, 5>>,
  <<S60, Q(1, 10), {<<60, 0>>, <<60, 1>>, <<61, 2>>}, {2, 4}, 4>>, <<SR(1, 6), Q(1, 25), {<<SR(1, 6).x0, 1>>}, {2, 3}, 4>>,
  <<U12, Q(1, 5), {<<1, 0>>, <<4, 3>>}, {2, 12}, 4>>, <<B20, Q(1, 25), {<<10, 4>>}, {4}, 5>>, <<CF1, Q(1, 25), {<<1, 0>>, <<30, 2>>}, {2, 12}, 4>>,
  <<GOM, Q(1, 20), {<<40, 0>>, <<50, 5>>}, {2, 12}, 4>>, <<SULTM, Q(1, 25), {<<60, 1>>}, {4}, 5>> >>
Mo == BasisSeq[bi][1]
ii == BasisSeq[bi][2]
X == xs[1]
S == xs[2]
rr(z) == RRnd(z, 45)
Acc0 == [S |-> "1", v |-> "1", a |-> "0"]
(* lives too few to matter: the end of life of a law without a limiting age *)
tiny == RPow(10, -30)
Endless == Mo.kind = "cforce"
Gone == IF Endless THEN n = 9 ELSE RLe(acc.S, tiny)
Run == obs = NoQuery
Init == /\ bi \in 1..Len(BasisSeq) /\ xs \in BasisSeq[bi][3] /\ Alive(BasisSeq[bi][1], xs[1], xs[2])
        /\ n = 0 /\ acc = Acc0 /\ log = <<Acc0>> /\ obs = NoQuery
Tick == /\ Run /\ ~Gone
        /\ n' = n + 1
        /\ acc' = [S |-> rr(P(Mo, X, S, n + 1)), v |-> rr(Vt(ii, n + 1)), a |-> rr(RAdd(acc.a, RMul(acc.v, acc.S)))]
        /\ log' = Append(log, acc') /\ UNCHANGED <<bi, xs, obs>>
At(u) == IF u > n THEN acc ELSE log[u + 1]
E(u) == IF u >= n /\ ~Endless THEN "0" ELSE RMul(At(u).v, At(u).S)
(* annual whole life annuity u years from now *)
WL(u) == IF Endless THEN RDiv(1, RSub(1, RMul(Vf(ii), Mo.p))) ELSE rr(RDiv(RSub(acc.a, At(u).a), E(u)))
Left1(u) == IF Endless THEN TRUE ELSE u < n /\ RLt(RPow(10, -12), At(u).S)
(* the force of mortality in the third term *)
Fun == <<Q(1, 100), Q(1, 1000), Q(1, 500)>>        \* a function of x and s supplied by the user
p1(u) == P(Mo, X, S + u, 1)
Modes == {"approx", "fun"} \cup (IF Mo.frac = "law" THEN {"exact"} ELSE {})
MuOk(mode, u) == mode # "approx" \/ (RLt(0, p1(u)) /\ S + u >= (IF Mo.kind = "select" THEN 1 ELSE 0) /\ X + S + u > Mo.x0)
MuAt(mode, u) ==
  CASE mode = "approx" -> RDiv(RNeg(RAdd(RLn(p1(u)), RLn(P(Mo, X, S + u - 1, 1)))), 2)
    [] mode = "exact"  -> Mu(Mo, X, S + u)
    [] mode = "fun"    -> RAdd(Fun[1], RAdd(RMul(Fun[2], X), RMul(Fun[3], S + u)))
W(m, tt, mu, u) == RSub(RSub(WL(u), Q(m - 1, 2 * m)), IF tt THEN RMul(RAdd(mu, Delta(ii)), Q((m * m) - 1, 12 * m * m)) ELSE "0")
Given == {"none", "0", "0.02"}
MuOf(mode, u, g) == IF g = "none" THEN MuAt(mode, u) ELSE RDec(g)
dm(m) == Dm(ii, m)
WI(m, tt, mu, u) == RSub(1, RMul(dm(m), W(m, tt, mu, u)))
Bs == {1, 1000}
Row(m, tt, mode, c, a, g, g1, e, b) ==
  Emit([w |-> Mo.id, i |-> RStr(ii), cls |-> "Woolhouse", m |-> m, ctor |-> [three_term |-> tt, approximate_mu |-> mode], k |-> Mo.kind,
        c |-> c, a |-> [x |-> X, s |-> S] @@ a @@ (IF g = "none" THEN <<>> ELSE [mu |-> g]) @@ (IF g1 = "none" THEN <<>> ELSE [mu1 |-> g1]), e |-> RStr(e), sc |-> RStr(b), tol |-> "x"])
Kinds(m) == {<<FALSE, "approx">>} \cup {<<TRUE, md>> : md \in Modes}
Ok(k, u, g) == ~k[1] \/ g # "none" \/ MuOk(k[2], u)
Gm(k) == IF k[1] THEN Given ELSE {"none"}
mv(k, u, g) == IF k[1] THEN MuOf(k[2], u, g) ELSE "0"
(* value of the unit annuity / insurance from u to u+t *)
Fin(u, t) == t # WHOLE /\ Left1(u + t)
Fits(u, t) == t = WHOLE \/ Left1(u + t) \/ REq(E(u + t), 0)
AnnV(m, k, u, t, g, g1) == RMul(E(u), RSub(W(m, k[1], mv(k, u, g), u),
   IF Fin(u, t) THEN RMul(RDiv(E(u + t), E(u)), W(m, k[1], mv(k, u + t, g1), u + t)) ELSE "0"))
InsV(m, k, u, t, g, g1) == RMul(E(u), RSub(WI(m, k[1], mv(k, u, g), u),
   IF Fin(u, t) THEN RMul(RDiv(E(u + t), E(u)), WI(m, k[1], mv(k, u + t, g1), u + t)) ELSE "0"))
Ts(u) == {0, 1, 2, 5, WHOLE} \cup (IF Endless \/ n > 15 THEN {} ELSE {n - u, n - u + 2})
OkT(k, u, t, g, g1) == Left1(u) /\ Ok(k, u, g) /\ (Fin(u, t) => Ok(k, u + t, g1))
Asked == Run /\ Gone /\ UNCHANGED <<bi, xs, n, acc, log>>
AskWhole == Asked /\ \E m \in BasisSeq[bi][4] : \E k \in Kinds(m) : \E g \in Gm(k) : obs' = <<"whole", m, k, g>> /\ (Ok(k, 0, g) = TRUE)
  /\ \A b \in Bs :
     /\ Row(m, k[1], k[2], "whole_life_annuity", [b |-> b], g, "none", RMul(b, W(m, k[1], mv(k, 0, g), 0)), b)
     /\ Row(m, k[1], k[2], "whole_life_insurance", [b |-> b], g, "none", RMul(b, WI(m, k[1], mv(k, 0, g), 0)), b)
  /\ (IF k[1] /\ g = "none" THEN Row(m, k[1], k[2], "mu_x", <<>>, g, "none", MuAt(k[2], 0), 1) ELSE TRUE)
AskTerm == Asked /\ \E m \in BasisSeq[bi][4] : \E k \in Kinds(m) : \E g \in Gm(k), g1 \in Gm(k), t \in Ts(0) : obs' = <<"term", m, k, g, g1, t>>
  /\ (Fits(0, t) = TRUE) /\ (OkT(k, 0, t, g, g1) = TRUE)
  /\ \A b \in Bs :
     /\ Row(m, k[1], k[2], "temporary_annuity", [b |-> b, t |-> t], g, g1, RMul(b, AnnV(m, k, 0, t, g, g1)), b)
     /\ Row(m, k[1], k[2], "term_insurance", [b |-> b, t |-> t], g, g1, RMul(b, InsV(m, k, 0, t, g, g1)), b)
     /\ (IF g1 # "none" THEN TRUE ELSE
           /\ \A en \in {-1, 0, 300} : Row(m, k[1], k[2], "endowment_insurance", [b |-> b, t |-> t, endowment |-> en], g, g1,
                RAdd(RMul(b, InsV(m, k, 0, t, g, g1)), IF Fin(0, t) THEN RMul(IF en < 0 THEN b ELSE en, E(t)) ELSE "0"), b + 300)
           /\ (IF g # "none" THEN TRUE ELSE Row(m, k[1], k[2], "immediate_annuity", [b |-> b, t |-> t], g, g1,
                RMul(b, RSub(AnnV(m, k, 0, t, g, g1), RDiv(RSub(1, IF Fin(0, t) THEN E(t) ELSE "0"), m))), b)))
AskDefer == Asked /\ \E m \in BasisSeq[bi][4] : \E k \in Kinds(m) : \E u \in 0..BasisSeq[bi][5] : \E g \in Gm(k), g1 \in Gm(k), t \in Ts(u) :
  obs' = <<"defer", m, k, u, g, g1, t>> /\ (OkT(k, u, t, g, g1) = TRUE) /\ (Fits(u, t) = TRUE)
  /\ \A b \in Bs :
     /\ Row(m, k[1], k[2], "deferred_annuity", [b |-> b, u |-> u, t |-> t], g, g1, RMul(b, AnnV(m, k, u, t, g, g1)), b)
     /\ Row(m, k[1], k[2], "deferred_insurance", [b |-> b, u |-> u, t |-> t], g, g1, RMul(b, InsV(m, k, u, t, g, g1)), b)
(* deferred past the last year anyone survives: nothing *)
AskPast == Asked /\ ~Endless /\ n <= 20 /\ \E m \in BasisSeq[bi][4] : \E k \in Kinds(m) : \E u \in {n, n + 1, n + 4}, t \in {0, 2, WHOLE} : obs' = <<"past", m, k, u, t>>
  /\ Row(m, k[1], k[2], "deferred_annuity", [b |-> 1000, u |-> u, t |-> t], "none", "none", 0, 1)
  /\ Row(m, k[1], k[2], "deferred_insurance", [b |-> 1000, u |-> u, t |-> t], "none", "none", 0, 1)
Next == Tick \/ AskPast \/ AskWhole \/ AskTerm \/ AskDefer
---------------------------------------------------------------------------
(* the m-thly annuity itself, of a smooth law *)
Exact(m) == Sum(0, (40 * m) - 1, LAMBDA j : RDiv(RRnd(RMul(Vt(ii, Q(j, m)), P(Mo, X, S, Q(j, m))), 45), m))
ExactTo40 == Exact(4)
(* Woolhouse to three terms is much closer to it than to two               *)
Err(tt) == LET z == RSub(RSub(W(4, tt, Mu(Mo, X, S), 0), RMul(E(40), W(4, tt, Mu(Mo, X, S + 40), 40))), ExactTo40) IN IF RLt(z, 0) THEN RNeg(z) ELSE z
Inv_Close == (Run /\ Gone /\ Mo.kind = "makeham" /\ S = 5) => RLt(Err(TRUE), RPow(10, -6)) /\ RLt(RMul(1000, Err(TRUE)), Err(FALSE))
(* annual payments need no correction *)
Inv_One == (Run /\ Gone) => REq(W(1, TRUE, "0", 0), WL(0))
(* an annuity of t years and the annuity deferred t years make up the whole life annuity *)
Inv_Split == (Run /\ Gone /\ MuOk("approx", 0)) => LET k == <<TRUE, "fun">> IN
  \A t \in 1..3 : Left1(t) => RTol(RAdd(AnnV(4, k, 0, t, "none", "none"), AnnV(4, k, t, WHOLE, "none", "none")), W(4, TRUE, MuAt("fun", 0), 0), RPow(10, -35))
BasesX == Bases
ASSUME DefAll([j \in 1..Len(Bases) |-> Bases[j][1]])
=============================================================================
