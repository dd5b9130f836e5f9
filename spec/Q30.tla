-------------------------------- MODULE Q30 --------------------------------
(***************************************************************************)
(* P30: discounting by a function of time instead of a constant rate.      *)
(* State: a life aged [x]+s followed one m-th of a year at a time (m = 0:  *)
(* one year at a time, benefits at the moment of death), with the value of *)
(* the benefits and payments so far, each discounted from the time when it *)
(* falls due by the curve: curves by forward rates, by spot rates, the     *)
(* hyperbolic one, and the constant one, for which the values have to be   *)
(* those of the constant rate (the twin identity is an invariant then).    *)
(***************************************************************************)
EXTENDS Worlds
CONSTANTS BasisSeq, NoQuery       \* sequence of <<model, curve, set of <<x, s>>, set of m, years>>
VARIABLES bi, xs, m, k, acc, log, obs
vars == <<bi, xs, m, k, acc, log, obs>>
Mo == BasisSeq[bi][1]
cu == BasisSeq[bi][2]
X == xs[1]
S == xs[2]
Per == IF m = 0 THEN 1 ELSE m
n == k \div Per
Whole == (k % Per) = 0
Thin == IF Thorough THEN 1 ELSE 2
rr(z) == RRnd(z, 40)
(*-------------------------------------------------------------- the curves *)
Flat(i) == [id |-> "flat", i |-> i]
Hyper(a, p) == [id |-> "hyper", a |-> a, p |-> p]                   \* (1 + a t)^-p
Fwd(f) == [id |-> "fwd", f |-> f]                                  \* f[j] from j-1 to j, the last one from then on
Spot(s0, s1) == [id |-> "spot", s0 |-> s0, s1 |-> s1]                \* (1 + s0 + s1 t)^-t
FAt(c, j) == c.f[IF j + 1 > Len(c.f) THEN Len(c.f) ELSE j + 1]
V(c, t) == rr(CASE c.id = "flat" -> RPowR(RDiv(1, RAdd(1, c.i)), t)
    [] c.id = "hyper" -> RPow(RAdd(1, RMul(c.a, t)), -c.p)
    [] c.id = "spot" -> RPowR(RDiv(1, RAdd(1, RAdd(c.s0, RMul(c.s1, t)))), t)
    [] c.id = "fwd" -> LET j == RFloor(t) IN RDiv(RPowR(RDiv(1, RAdd(1, FAt(c, j))), RSub(t, j)), RProd([l \in 1..j |-> RAdd(1, FAt(c, l - 1))])))
CDef(c) == CASE c.id = "flat" -> [id |-> "flat", i |-> RStr(c.i)]
   [] c.id = "hyper" -> [id |-> "hyper", a |-> RStr(c.a), p |-> RStr(R(c.p))]
   [] c.id = "spot" -> [id |-> "spot", s0 |-> RStr(c.s0), s1 |-> RStr(c.s1)]
   [] c.id = "fwd" -> [id |-> "fwd", f |-> [j \in 1..Len(c.f) |-> RStr(c.f[j])]]
Few(M) == {<<M.x0, 0>>, <<M.x0 + 1, 1>>}
Rf(j) == Q(Hash(<<Seed, "fw", j>>, 120), 1000)
F1 == Fwd(<<Q(1, 50), Q(1, 20), "0", Q(1, 10)>>)
F2 == Fwd(<<Rf(1), Rf(2), Rf(3), Rf(4), Rf(5)>>)
H1 == Hyper(Q(1, 5), 2)
S1 == Spot(Q(1, 25), Q(1, 200))
S2 == Spot(Q(3, 50), Q(Hash(<<Seed, "sp">>, 9) - 4, 1000))
Bases == <<
  <<T40, F1, Few(T40), {1, 2, 0}, 9>>, <<T40, H1, {<<40, 0>>, <<41, 2>>}, {1, 4, 0}, 9>>, <<T40, Flat(Q(1, 20)), Few(T40), {1, 12}, 9>>,
  <<T0, S1, {<<0, 0>>, <<1, 1>>}, {1, 2}, 9>>, <<T97, F2, {<<97, 0>>, <<98, 1>>}, {1, 0}, 9>>, <<T40C, S2, {<<40, 0>>, <<40, 2>>}, {1, 2}, 9>>,
  <<TR(1, 7), F2, Few(TR(1, 7)), {1, 4}, 9>>, <<TR(2, 9), H1, {<<TR(2, 9).x0, 1>>}, {1, 0}, 10>>, <<TR(3, 6), Flat("0"), {<<TR(3, 6).x0, 0>>}, {1, 2}, 8>>,
  <<S60, F1, {<<60, 0>>, <<60, 1>>, <<61, 2>>}, {1, 2, 0}, 9>>, <<SR(1, 6), S2, Few(SR(1, 6)), {1}, 9>>,
  <<U12, H1, {<<0, 0>>, <<4, 3>>}, {1, 0}, 14>>, <<U12, F1, {<<4, 3>>}, {2}, 14>>, <<B20, S1, {<<10, 4>>}, {1, 0}, 8>>,
  <<CF1, F2, {<<30, 2>>}, {1, 0}, 5>>, <<CF2, H1, {<<5, 1>>}, {1, 2}, 4>>, <<GOM, S1, {<<30, 0>>, <<50, 5>>}, {1, 0}, 5>> >>
(*-------------------------------------------------- one period passes *)
c0 == 5 + (2 * (X + S))
Ben(t) == RAdd(c0, RMul(7, t))
Acc0 == [S |-> "1", A |-> "0", A2 |-> "0", I |-> "0", G |-> "0", G2 |-> "0", a |-> "0", Ia |-> "0", g |-> "0"]
Init == /\ bi \in 1..Len(BasisSeq) /\ xs \in BasisSeq[bi][3] /\ m \in BasisSeq[bi][4]
        /\ Alive(BasisSeq[bi][1], xs[1], xs[2]) /\ k = 0 /\ acc = Acc0 /\ log = <<Acc0>> /\ obs = NoQuery
Run == obs = NoQuery
Living == RLt(0, acc.S)
Uni == Mo.frac = "udd" \/ (Mo.kind = "beta" /\ REq(Mo.alpha, 1))
Dens(z) == rr(IF Uni THEN QQ(Mo, X, S, k, 1) ELSE IF Mo.frac = "cfm" THEN RMul(P(Mo, X, S, z), ForceIn(Mo, X, S, k)) ELSE IF RLe(P(Mo, X, S, z), 0) THEN "0" ELSE F(Mo, X, S, z))
Quad(f(_)) == rr(Simpson(f, k, k + 1, 8))
Step == IF m = 0
  THEN LET d(p, c1, z) == RMul(RMul(RPow(V(cu, z), p), RPow(c1, p)), Dens(z)) y(c1, z) == RMul(RMul(V(cu, z), c1), rr(P(Mo, X, S, z))) IN
       [S |-> P(Mo, X, S, k + 1), A |-> RAdd(acc.A, Quad(LAMBDA z : d(1, "1", z))), A2 |-> RAdd(acc.A2, Quad(LAMBDA z : d(2, "1", z))),
        I |-> RAdd(acc.I, Quad(LAMBDA z : d(1, z, z))), G |-> RAdd(acc.G, Quad(LAMBDA z : d(1, Ben(z), z))), G2 |-> RAdd(acc.G2, Quad(LAMBDA z : d(2, Ben(z), z))),
        a |-> RAdd(acc.a, Quad(LAMBDA z : y("1", z))), Ia |-> RAdd(acc.Ia, Quad(LAMBDA z : y(z, z))), g |-> RAdd(acc.g, Quad(LAMBDA z : y(Ben(z), z)))]
  ELSE LET q == QQ(Mo, X, S, Q(k, m), Q(1, m)) v0 == V(cu, Q(k, m)) v1 == V(cu, Q(k + 1, m))
           b == IF m = 1 THEN Ben(k + 1) ELSE Ben(Q(k, m))       \* Mthly: the amount at the start of the period
           vb == RMul(v1, b)
           y == RDiv(RMul(v0, acc.S), m)
       IN [S |-> P(Mo, X, S, Q(k + 1, m)), A |-> RAdd(acc.A, RMul(v1, q)), A2 |-> RAdd(acc.A2, RMul(RMul(v1, v1), q)),
           I |-> RAdd(acc.I, RMul(k + 1, RMul(v1, q))), G |-> RAdd(acc.G, RMul(vb, q)), G2 |-> RAdd(acc.G2, RMul(RMul(vb, vb), q)),
           a |-> RAdd(acc.a, y), Ia |-> RAdd(acc.Ia, RMul(k + 1, y)), g |-> RAdd(acc.g, RMul(Ben(Q(k, m)), y))]
Tick == /\ Run /\ Living /\ k < Per * BasisSeq[bi][5]
        /\ (m = 0 /\ Mo.frac = "cfm" => Alive(Mo, X, S + n + 1))
        /\ k' = k + 1 /\ acc' = Step
        /\ log' = IF ((k + 1) % Per) = 0 THEN Append(log, acc') ELSE log
        /\ UNCHANGED <<bi, xs, m, obs>>
(*---------------------------------------------------------------- queries *)
Gone == ~Living
Df(f, u) == RSub(acc[f], log[u + 1][f])
Terms == IF Gone THEN {n, n + 2, WHOLE} ELSE {n}
TermsFrom(u) == IF Gone THEN {n - u, n - u + 3, WHOLE} ELSE {n - u}
Bs == {1, 1000}
Ms == {1, 2, VARIANCE}
Pw(b, j) == IF j = 1 THEN R(b) ELSE RMul(b, b)
vn == V(cu, n)
Mom(u, b, en, j) ==
  LET e1 == RAdd(RMul(b, Df("A", u)), RMul(en, RMul(vn, acc.S)))
      e2 == RAdd(RMul(Pw(b, 2), Df("A2", u)), RMul(RMul(en, en), RMul(RMul(vn, vn), acc.S)))
  IN IF j = 1 THEN e1 ELSE IF j = 2 THEN e2 ELSE Moment2(e2, e1)
Tol == IF m = 0 THEN (IF Mo.kind \in {"table", "select"} THEN "5e-6" ELSE "1e-6") ELSE "x"
(* may: a quantity that is defined through a constant rate may be refused, never answered wrongly *)
RowM(c, a, e, sc, may) == Emit([w |-> Mo.id, k |-> (IF m = 0 THEN "c" ELSE "") \o Mo.kind, c |-> c, e |-> RStr(e), tol |-> Tol, a |-> a,
   curve |-> CDef(cu), may |-> may, sc |-> RStr(RMax(1, sc))] @@ (IF m > 1 THEN [cls |-> "Mthly", m |-> m] ELSE <<>>))
D == IF m = 0 THEN [discrete |-> FALSE] ELSE IF m = 1 THEN [discrete |-> TRUE] ELSE <<>>
Row(c, a, e, sc) == RowM(c, [x |-> X, s |-> S] @@ a @@ D, e, sc, FALSE)
RowL(c, a, e, sc) == IF m > 1 THEN TRUE ELSE Row(c, a, e, sc)          \* of the life itself only
U(u) == IF m > 1 THEN [n |-> u] ELSE [u |-> u]
AskTerm == \E t \in Terms, b \in Bs, j \in Ms : obs' = <<"term", t, b, j>>
  /\ Row("term_insurance", [t |-> t, b |-> b, moment |-> j], Mom(0, b, "0", j), Pw(b, j))
AskWhole == Gone /\ \E b \in Bs, j \in Ms : obs' = <<"whole", b, j>>
  /\ Row("whole_life_insurance", [b |-> b, moment |-> j], Mom(0, b, "0", j), Pw(b, j))
AskEndow == \E t \in Terms, b \in Bs, en \in {-1, 0, 250}, j \in Ms : obs' = <<"endow", t, b, en, j>>
  /\ Row("endowment_insurance", [t |-> t, b |-> b, endowment |-> en, moment |-> j], Mom(0, b, IF en < 0 THEN R(b) ELSE R(en), j), Pw(b + 250, j))
AskE == m # 0 /\ \E b \in Bs, j \in {1, 2} : obs' = <<"E", b, j>>
  /\ RowM("E_x", [x |-> X, s |-> S, t |-> n, endowment |-> b, moment |-> j], RMul(Pw(b, j), RMul(RPow(vn, j), acc.S)), Pw(b, j), FALSE)
AskEV == m = 1 /\ obs' = <<"EV">>
  /\ RowM("E_x", [x |-> X, s |-> S, t |-> n, endowment |-> 20, moment |-> VARIANCE], RMul(400, RMul(RMul(vn, vn), RMul(acc.S, RSub(1, acc.S)))), 400, FALSE)
AskDefer == \E u \in 0..n : \E t \in TermsFrom(u), b \in Bs, j \in Ms : obs' = <<"defer", u, t, b, j>>
  /\ Row("deferred_insurance", U(u) @@ [t |-> t, b |-> b, moment |-> j], Mom(u, b, "0", j), Pw(b, j))
AskGen == \E u \in {0, 1, 2} : u <= n /\ \E t \in TermsFrom(u), j \in {1, 2} : (m # 0 \/ j = 1) /\ obs' = <<"gen", u, t, j>>
  /\ Row("A_x", [u |-> u, t |-> t, benefit |-> <<5, 7, 2>>, moment |-> j], Df(IF j = 1 THEN "G" ELSE "G2", u), Pw(c0, j))
  /\ (j = 1 => RowL("a_x", [u |-> u, t |-> t, benefit |-> <<5, 7, 2>>], Df("g", u), c0))
AskVary == m < 2 /\ \E b \in Bs, t \in Terms : obs' = <<"vary", b, t>>
  /\ Row("increasing_insurance", [t |-> t, b |-> b], RMul(b, acc.I), b * n)
  /\ Row("increasing_annuity", [t |-> t, b |-> b], RMul(b, acc.Ia), b * n)
  /\ (t # WHOLE => /\ Row("decreasing_insurance", [t |-> t, b |-> b], RMul(b, RSub(RMul(t + m, acc.A), acc.I)), b * (t + 1))
                   /\ Row("decreasing_annuity", [t |-> t, b |-> b], RMul(b, RSub(RMul(t + m, acc.a), acc.Ia)), b * (t + 1)))
RowA(c, a, e, sc) == RowM(c, [x |-> X, s |-> S] @@ a @@ D, e, sc, FALSE)
AskAnn == \E t \in Terms, b \in Bs : obs' = <<"ann", t, b>>
  /\ RowA("temporary_annuity", [t |-> t, b |-> b], RMul(b, acc.a), b)
  /\ (m > 0 => RowM("immediate_annuity", [x |-> X, s |-> S, t |-> t, b |-> b], RMul(b, RAdd(acc.a, RDiv(RSub(RMul(vn, acc.S), 1), m))), b, FALSE))
AskWholeA == Gone /\ \E b \in Bs : obs' = <<"wholea", b>> /\ RowA("whole_life_annuity", [b |-> b], RMul(b, acc.a), b)
CertV(u) == RSum([j \in 1..u |-> V(cu, j - 1)])
AskDeferA == \E u \in 0..n : \E t \in TermsFrom(u), b \in Bs : obs' = <<"defera", u, t, b>>
  /\ RowA("deferred_annuity", [u |-> u, t |-> t, b |-> b], RMul(b, Df("a", u)), b)
  /\ (m = 1 => RowM("certain_life_annuity", [x |-> X, s |-> S, u |-> u, t |-> t, b |-> b], RMul(b, RAdd(CertV(u), Df("a", u))), b, TRUE))
AskZ == m = 1 /\ obs' = <<"Z">>
  /\ RowM("Z_x", [x |-> X, s |-> S, t |-> n], IF Gone THEN "0" ELSE RMul(V(cu, n + 1), QQ(Mo, X, S, n, 1)), 1, FALSE)
  /\ RowM("Y_x", [x |-> X, s |-> S, t |-> n], RMul(vn, acc.S), 1, FALSE)
  /\ RowM("Z_from_t", [t |-> RStr(RAdd(n, Q(1, 3)))], V(cu, n + 1), 1, FALSE)
  /\ RowM("Z_from_t", [t |-> RStr(RAdd(n, Q(1, 3))), discrete |-> FALSE], V(cu, RAdd(n, Q(1, 3))), 1, FALSE)
  /\ RowM("interest.v_t", [t |-> RStr(RAdd(n, Q(1, 4)))], V(cu, RAdd(n, Q(1, 4))), 1, FALSE)
AskM == m > 1 /\ n < 4 /\ obs' = <<"m">>
  /\ RowM("v_m", [k |-> k], V(cu, n), 1, FALSE)
Common == AskTerm \/ AskWhole \/ AskEndow \/ AskE \/ AskEV \/ AskDefer \/ AskGen \/ AskVary \/ AskAnn \/ AskWholeA \/ AskDeferA \/ AskZ \/ AskM
Ask == Run /\ k > 0 /\ Whole /\ UNCHANGED <<bi, xs, m, k, acc, log>> /\ Common
Next == Tick \/ Ask
---------------------------------------------------------------------------
eps == RPow(10, -6)
(* payments and benefits: sum by parts, with the discount lost in each period *)
Inv_Parts == (Run /\ m > 0) =>
  RNear(RAdd(acc.A, RMul(V(cu, Q(k, m)), acc.S)), RSub(1, RSum([j \in 1..k |-> RMul(RSub(V(cu, Q(j - 1, m)), V(cu, Q(j, m))), P(Mo, X, S, Q(j - 1, m)))])))
(* a constant curve: the twin identity of the constant rate *)
Inv_Flat == (Run /\ cu.id = "flat" /\ m > 0) =>
  RTol(RAdd(RAdd(acc.A, RMul(V(cu, Q(k, m)), acc.S)), RMul(Dm(cu.i, m), acc.a)), 1, RPow(10, -30))
Inv_V == Run => REq(V(cu, 0), 1) /\ RLe(V(cu, n + 1), V(cu, n)) /\ RLt(0, V(cu, n + 1))
Inv_Order == Run => RLe(acc.A2, RAdd(acc.A, eps)) /\ RLe(RMul(acc.A, acc.A), RAdd(acc.A2, eps))
(* with m = 0, benefits lie between those at the two ends of each year *)
Inv_Between == (Run /\ m = 0 /\ k > 0) => LET lo == RSum([j \in 1..k |-> RMul(V(cu, j), QQ(Mo, X, S, j - 1, 1))]) hi == RSum([j \in 1..k |-> RMul(V(cu, j - 1), QQ(Mo, X, S, j - 1, 1))])
  IN RLe(lo, RAdd(acc.A, eps)) /\ RLe(acc.A, RAdd(hi, eps))
BasesX == Bases
ASSUME DefAll([j \in 1..Len(Bases) |-> Bases[j][1]])
=============================================================================
