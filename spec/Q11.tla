-------------------------------- MODULE Q11 --------------------------------
(***************************************************************************)
(* P11: insurances payable at the moment of death and continuous annuities.*)
(* State: the value of the benefits and payments so far, one year of age   *)
(* at a time; inside a year the value is exact for uniform deaths and for a*)
(* constant force, and by Simpson's rule for the smooth laws.              *)
(***************************************************************************)
EXTENDS Worlds
CONSTANTS BasisSeq, NoQuery
VARIABLES bi, xs, n, acc, obs
vars == <<bi, xs, n, acc, obs>>
AgesOf(M, smax) == UNION {{<<x, s>> : s \in 0..smax} : x \in {M.x0 + j : j \in 0..(Len(M.l) - 2)}}
Few(M) == {<<M.x0, 0>>, <<M.x0, 1>>, <<M.x0 + 1, 0>>, <<M.x0 + 1, 2>>}
Bases == <<
  <<T40, Q(1, 10), Few(T40), 9>>, <<T40, "0", Few(T40), 9>>, <<T40, Q(1, 100), {<<40, 0>>}, 9>>,
  <<T0, Q(1, 20), {<<0, 0>>, <<1, 0>>, <<0, 2>>}, 9>>, <<T97, Q(1, 4), {<<97, 0>>, <<98, 1>>}, 9>>,
  <<TR(1, 7), Q(1, 8), Few(TR(1, 7)), 9>>, <<TR(2, 5), "0", {<<TR(2, 5).x0, 1>>}, 9>>,
  <<T40C, Q(1, 10), Few(T40C), 4>>, <<TRC(1, 6), Q(1, 20), Few(TRC(1, 6)), 4>>,
  <<S60, Q(1, 10), {<<60, 0>>, <<60, 1>>, <<61, 2>>}, 9>>, <<S60C, Q(1, 16), {<<60, 0>>, <<61, 1>>}, 3>>,
  <<U12, Q(1, 5), {<<0, 0>>, <<4, 0>>, <<4, 3>>, <<11, 0>>}, 14>>, <<U12, "0", {<<4, 3>>}, 14>>, <<U100, Q(1, 25), {<<60, 0>>, <<60, 20>>}, 5>>,
  <<B20, Q(1, 25), {<<10, 0>>, <<10, 4>>}, 5>>,
  <<CF1, Q(1, 25), {<<0, 0>>, <<30, 2>>}, 6>>, <<CF2, "0", {<<5, 1>>}, 4>>,
  <<Geo("CF0", "1"), Q(1, 20), {<<5, 1>>}, 4>>, <<Geo("CF0", "1"), "0", {<<5, 1>>}, 4>>,
  <<Geo("CFR", Q(80 + Hash(<<Seed, "cf">>, 19), 100)), Q(Hash(<<Seed, "i11">>, 90) + 10, 1000), {<<20, 0>>, <<7, 3>>}, 5>>,
  <<SULTM, Q(1, 20), {<<60, 0>>, <<50, 10>>}, 5>>, <<SM1, Q(1, 20), {<<30, 0>>, <<30, 4>>}, 4>> >>
Mo == BasisSeq[bi][1]
ii == BasisSeq[bi][2]
X == xs[1]
S == xs[2]
dl == Delta(ii)
Smooth(M) == M.kind \in {"makeham", "selmu"} \/ (M.kind = "beta" /\ ~REq(M.alpha, 1))
rr(z) == RRnd(z, 30)
(* inside year k: value of (c0 + c1 tau) at death at tau, to the power m (benefit and discount) *)
IP(M, i, x, s, k, m, c0, c1) ==
  IF Smooth(M) THEN Simpson(LAMBDA z : rr(RMul(RPow(RMul(RAdd(c0, RMul(c1, z)), Vt(i, z)), m), F(M, x, s, z))), k, k + 1, 6)
  ELSE RRnd(InsPiece(M, i, x, s, k, 1, m, c0, c1), 45)
AP(M, i, x, s, k, c0, c1) ==
  IF Smooth(M) THEN Simpson(LAMBDA z : rr(RMul(RMul(RAdd(c0, RMul(c1, z)), Vt(i, z)), P(M, x, s, z))), k, k + 1, 6)
  ELSE RRnd(AnnPiece(M, i, x, s, k, 1, c0, c1), 45)
(* U: every benefit and payment so far for unit and linearly increasing amounts *)
Acc0 == <<[S |-> "1", v |-> "1", A |-> "0", A2 |-> "0", IA |-> "0", a |-> "0", Ia |-> "0"]>>
Init == /\ bi \in 1..Len(BasisSeq) /\ xs \in BasisSeq[bi][3]
        /\ Alive(BasisSeq[bi][1], xs[1], xs[2]) /\ n = 0 /\ acc = Acc0 /\ obs = NoQuery
Run == obs = NoQuery
Now == acc[n + 1]
Year == /\ Run /\ RLt(0, Now.S) /\ n < BasisSeq[bi][4] /\ n' = n + 1
        /\ (Mo.frac = "cfm" => Alive(Mo, X, S + n + 1))
        /\ LET go(c0, c1, m) == IP(Mo, ii, X, S, n, m, c0, c1) IN
           acc' = Append(acc, [S |-> P(Mo, X, S, n + 1), v |-> RMul(Now.v, Vf(ii)),
                   A |-> RAdd(Now.A, go(1, 0, 1)), A2 |-> RAdd(Now.A2, go(1, 0, 2)), IA |-> RAdd(Now.IA, go(0, 1, 1)),
                   a |-> RAdd(Now.a, AP(Mo, ii, X, S, n, 1, 0)), Ia |-> RAdd(Now.Ia, AP(Mo, ii, X, S, n, 0, 1))])
        /\ UNCHANGED <<bi, xs, obs>>
Gone == ~RLt(0, Now.S)
At(u) == acc[u + 1]
(* between u and n *)
Df(f, u) == RSub(Now[f], At(u)[f])
Ins1(f, u, b, m) == RMul(IF m = 1 THEN b ELSE b * b, Df(f, u))
tol == IF Smooth(Mo) THEN "1e-6" ELSE IF Mo.kind \in {"table", "select"} THEN "2e-6" ELSE "1e-7"
(* a closed table with constant forces has an infinite force in its last year, *)
(* which the library replaces by a finite one: only the survival functions are used *)
Kind(c) == IF c \in {"Z_x", "Y_x"} THEN "z" \o Mo.kind
           ELSE IF Mo.frac = "cfm" /\ Mo.kind \in {"table", "select"} THEN "cfm" ELSE ""
RowT(c, a, e, t) == Emit([w |-> Mo.id, i |-> RStr(ii), c |-> c, k |-> Kind(c), a |-> [x |-> X, s |-> S, discrete |-> FALSE] @@ a, e |-> RStr(e), tol |-> t])
Row(c, a, e) == RowT(c, a, e, tol)
(* the same, compared relative to the benefit amount *)
RowB(c, a, b, e) == Emit([w |-> Mo.id, i |-> RStr(ii), c |-> c, k |-> Kind(c), a |-> [x |-> X, s |-> S, discrete |-> FALSE] @@ a, e |-> RStr(e), tol |-> tol, sc |-> RStr(b)])
Terms == IF Gone THEN {n, n + 2, WHOLE} ELSE {n}
Bs == {1, 1000}
MV(f1, f2, u, b, m, en) ==     \* moments of (A between u and n) + endowment en at n to survivors
  LET e1 == RAdd(RMul(b, Df("A", u)), RMul(en, RMul(Now.v, Now.S)))
      e2 == RAdd(RMul(b * b, Df("A2", u)), RMul(RMul(en, en), RMul(RPow(Now.v, 2), Now.S)))
  IN IF m = 1 THEN e1 ELSE IF m = 2 THEN e2 ELSE Moment2(e2, e1)
Ms == {1, 2, VARIANCE}
Sc(b, m) == IF m = 1 THEN b ELSE b * b
AskTerm == \E t \in Terms, b \in Bs, m \in Ms : obs' = <<"term", t, b, m>>
  /\ RowB("term_insurance", [t |-> t, b |-> b, moment |-> m], Sc(b, m), MV("A", "A2", 0, b, m, "0"))
AskWhole == Gone /\ \E b \in Bs, m \in Ms : obs' = <<"whole", b, m>>
  /\ RowB("whole_life_insurance", [b |-> b, moment |-> m], Sc(b, m), MV("A", "A2", 0, b, m, "0"))
AskEndow == \E t \in Terms, b \in Bs, en \in {-1, 0, 250}, m \in Ms : obs' = <<"endow", t, b, en, m>>
  /\ RowB("endowment_insurance", [t |-> t, b |-> b, endowment |-> en, moment |-> m], Sc(b + 250, m),
         MV("A", "A2", 0, b, m, IF en < 0 THEN R(b) ELSE R(en)))
AskDefer == \E u \in 0..n, b \in Bs, m \in Ms : (~Gone \/ u < n) /\ n > 0
  /\ \E t \in (IF Gone THEN {n - u, WHOLE} ELSE {n - u}) : obs' = <<"defer", u, t, b, m>>
     /\ RowB("deferred_insurance", [u |-> u, t |-> t, b |-> b, moment |-> m], Sc(b, m), MV("A", "A2", u, b, m, "0"))
AskInc == \E t \in Terms, b \in Bs : obs' = <<"inc", t, b>>
  /\ RowB("increasing_insurance", [t |-> t, b |-> b], b * n, RMul(b, Now.IA))
  /\ RowB("increasing_annuity", [t |-> t, b |-> b], b * n, RMul(b, Now.Ia))
AskDec == n > 0 /\ \E t \in Terms \ {WHOLE}, b \in Bs : obs' = <<"dec", t, b>>
  /\ RowB("decreasing_insurance", [t |-> t, b |-> b], b * t, RSub(RMul(b * t, Now.A), RMul(b, Now.IA)))
  /\ RowB("decreasing_annuity", [t |-> t, b |-> b], b * t, RSub(RMul(b * t, Now.a), RMul(b, Now.Ia)))
AskTemp == \E t \in Terms, b \in Bs : obs' = <<"temp", t, b>>
  /\ RowB("temporary_annuity", [t |-> t, b |-> b], b, RMul(b, Now.a))
AnnV(b) == LET en == RMul(Now.v, Now.S)
               m1 == RAdd(Now.A, en)
               m2 == RAdd(Now.A2, RMul(Now.v, en))
           IN RMul(b * b, IF RLt(0, ii) THEN RDiv(RSub(m2, RMul(m1, m1)), RMul(dl, dl)) ELSE RSub(RMul(2, Now.Ia), RMul(Now.a, Now.a)))
AskVar == n > 0 /\ \E t \in Terms, b \in Bs : obs' = <<"var", t, b>>
  /\ RowB("temporary_annuity", [t |-> t, b |-> b, variance |-> TRUE], RMul(b * b, IF RLt(0, ii) THEN RDiv(1, RMul(dl, dl)) ELSE 1), AnnV(b))
AskWholeA == Gone /\ \E b \in Bs : obs' = <<"wholea", b>>
  /\ RowB("whole_life_annuity", [b |-> b], b, RMul(b, Now.a))
  /\ RowB("whole_life_annuity", [b |-> b, variance |-> TRUE], RMul(b * b, IF RLt(0, ii) THEN RDiv(1, RMul(dl, dl)) ELSE 1), AnnV(b))
Cert(u) == IF RLt(0, ii) THEN RDiv(RSub(1, Vt(ii, u)), dl) ELSE R(u)
AskDeferA == \E u \in 0..n, b \in Bs : (~Gone \/ u < n) /\ n > 0
  /\ \E t \in (IF Gone THEN {n - u, WHOLE} ELSE {n - u}) : obs' = <<"defera", u, t, b>>
     /\ RowB("deferred_annuity", [u |-> u, t |-> t, b |-> b], b, RMul(b, Df("a", u)))
     /\ RowB("certain_life_annuity", [u |-> u, t |-> t, b |-> b], b, RAdd(RMul(b, Cert(u)), RMul(b, Df("a", u))))
(* amounts 5 + 7 tau + 2 (attained age) *)
AskGen == \E u \in {0, 1, 2} : u <= n /\ n > 0 /\ (Gone => u < n) /\ \E t \in (IF Gone THEN {n - u, WHOLE} ELSE {n - u}) : obs' = <<"gen", u, t>>
  /\ LET c0 == 5 + (2 * (X + S)) IN
     /\ RowB("A_x", [u |-> u, t |-> t, benefit |-> <<5, 7, 2>>], c0, RAdd(RMul(c0, Df("A", u)), RMul(7, Df("IA", u))))
     /\ \A m \in {1, 2} : RowB("A_x", [u |-> u, t |-> t, benefit |-> <<5, 0, 2>>, moment |-> m, endowment |-> IF t = WHOLE THEN 0 ELSE 30], Sc(c0 + 30, m),
                                MV("A", "A2", u, c0, m, IF t = WHOLE THEN "0" ELSE R(30)))
     /\ RowB("a_x", [u |-> u, t |-> t, benefit |-> <<5, 7, 2>>], c0, RAdd(RMul(c0, Df("a", u)), RMul(7, Df("Ia", u))))
Inside(z) == LET k == RFloor(RAdd(S, z)) IN RLt(0, LInt(Mo, X, k)) /\ (Mo.frac = "cfm" => RLt(0, LInt(Mo, X, k + 1)))
AskZ == ~Gone /\ \E h \in (IF Mo.frac = "law" THEN {"0"} ELSE {}) \union {Q(1, 4), Q(2, 3)} : LET z == RAdd(n, h) IN Inside(z) /\ obs' = <<"z", h>>
  /\ RowT("Z_x", [t |-> RStr(z)], RMul(Vt(ii, z), F(Mo, X, S, z)), "x")
  /\ RowT("Y_x", [t |-> RStr(z)], RMul(Vt(ii, z), P(Mo, X, S, z)), "x")
(* constant force, whole life: mu / (mu + delta) and 1 / (mu + delta)      *)
AskForce == Mo.kind = "cforce" /\ n = 0 /\ (REq(Mo.p, 1) => RLt(0, ii)) /\ \E b \in Bs : obs' = <<"force", b>> /\
  LET mu == RNeg(RLn(Mo.p))
      A(m) == RDiv(mu, RAdd(mu, RMul(m, dl)))
      a == RDiv(1, RAdd(mu, dl))
      E(u) == RMul(Vt(ii, u), RPow(Mo.p, u))
  IN /\ \A m \in Ms : RowB("whole_life_insurance", [b |-> b, moment |-> m], Sc(b, m),
            RMul(Sc(b, m), IF m > 0 THEN A(m) ELSE Moment2(A(2), A(1))))
     /\ \A m \in Ms : RowB("term_insurance", [t |-> WHOLE, b |-> b, moment |-> m], Sc(b, m),
            RMul(Sc(b, m), IF m > 0 THEN A(m) ELSE Moment2(A(2), A(1))))
     /\ RowB("whole_life_annuity", [b |-> b], b, RMul(b, a))
     /\ RowB("temporary_annuity", [b |-> b, t |-> WHOLE], b, RMul(b, a))
     /\ RowB("whole_life_annuity", [b |-> b, variance |-> TRUE], b * b * 100,
             RMul(b * b, IF RLt(0, ii) THEN RDiv(Moment2(A(2), A(1)), RMul(dl, dl)) ELSE RDiv(1, RMul(mu, mu))))
     /\ \A u \in {1, 4} : RowB("deferred_insurance", [u |-> u, b |-> b], b, RMul(RMul(b, E(u)), A(1)))
                       /\ RowB("deferred_annuity", [u |-> u, b |-> b], b, RMul(RMul(b, E(u)), a))
AskMakeham == Mo.kind = "makeham" /\ n = 0 /\ \E b \in Bs : obs' = <<"mk", b>> /\
  LET top == 135 - X - S
      a == Simpson(LAMBDA z : rr(RMul(Vt(ii, z), P(Mo, X, S, z))), 0, top, 4 * top)
      A(m) == RSub(1, RMul(RMul(m, dl), Simpson(LAMBDA z : rr(RMul(Vt(ii, m * z), P(Mo, X, S, z))), 0, top, 4 * top)))
  IN /\ RowB("whole_life_insurance", [b |-> b], b, RMul(b, RSub(1, RMul(dl, a))))
     /\ RowB("whole_life_insurance", [b |-> b, moment |-> 2], b * b, RMul(b * b, RSub(1, RMul(RMul(2, dl),
             Simpson(LAMBDA z : rr(RMul(RMul(Vt(ii, z), Vt(ii, z)), P(Mo, X, S, z))), 0, top, 4 * top)))))
     /\ RowB("whole_life_annuity", [b |-> b], b, RMul(b, a))
Ask == Run /\ UNCHANGED <<bi, xs, n, acc>> /\
  (AskTerm \/ AskWhole \/ AskEndow \/ AskDefer \/ AskInc \/ AskDec \/ AskTemp \/ AskVar \/ AskWholeA \/ AskDeferA \/ AskGen \/ AskZ \/ AskForce \/ AskMakeham)
Next == Year \/ Ask
eps == IF Smooth(Mo) THEN RPow(10, -8) ELSE RPow(10, -30)
(* Abar + v^n p + delta abar = 1 *)
Inv_Twin == Run => RTol(RAdd(RAdd(Now.A, RMul(Now.v, Now.S)), RMul(dl, Now.a)), 1, eps)
(* d/d tau of tau v^tau S:  n v^n S = abar - delta Iabar - IAbar *)
Inv_IncTwin == Run => RTol(RMul(n, RMul(Now.v, Now.S)), RSub(RSub(Now.a, RMul(dl, Now.Ia)), Now.IA), eps)
Inv_Order == Run => RLe(Now.A2, RAdd(Now.A, eps)) /\ RLe(RMul(Now.A, Now.A), RAdd(Now.A2, eps)) /\ RLe(Now.a, n)
(* uniform deaths: abar-year-by-year insurance is i/delta times the discrete one *)
Inv_Udd == (Run /\ (Mo.frac = "udd" \/ (Mo.kind = "beta" /\ REq(Mo.alpha, 1))) /\ RLt(0, ii)) =>
   RTol(Now.A, RMul(RDiv(ii, dl), Ins(Mo, ii, X, S, 0, n, 1, LAMBDA k : R(1), "0")), eps)
BasesX == Bases   \* substituted through this: TLC caches Bases as a constant
ASSUME DefAll([j \in 1..Len(Bases) |-> Bases[j][1]])
=============================================================================
