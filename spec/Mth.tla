-------------------------------- MODULE Mth --------------------------------
(***************************************************************************)
(* Benefits and payments m times a year (m = 0: at the moment of death and *)
(* continuously).  State: a life aged [x]+s followed one m-th of a year at *)
(* a time; the value of the benefits and payments so far is accumulated    *)
(* from the probabilities of each period, and kept at every whole year.    *)
(* Nothing here uses the annual values: the identities that connect the    *)
(* two are invariants.                                                     *)
(***************************************************************************)
EXTENDS Worlds
CONSTANTS BasisSeq,      \* sequence of <<model, i, set of <<x, s>>, set of m, years>>
          Cls, NoQuery
VARIABLES bi, xs, m, k, acc, log, obs
vars == <<bi, xs, m, k, acc, log, obs>>
Mo == BasisSeq[bi][1]
ii == BasisSeq[bi][2]
X == xs[1]
S == xs[2]
Per == IF m = 0 THEN 1 ELSE m
tau == Q(k, Per)
n == k \div Per
Whole == (k % Per) = 0
rr(z) == RRnd(z, 45)
Positive == RLt(0, ii)
dm == IF m = 0 THEN Delta(ii) ELSE Dm(ii, m)
(* a general benefit: 5 + 7 t + 2 (attained age at issue)                  *)
Coef == <<5, 7, 2>>
c0 == 5 + (2 * (X + S))
Ben(t) == RAdd(c0, RMul(7, t))

General == Cls = "Mthly"                     \* only there may amounts vary freely
Acc0 == [S |-> "1", v |-> "1", A |-> "0", A2 |-> "0", B |-> "0", B2 |-> "0", Ba |-> "0", a |-> "0", Y |-> "0", Y2 |-> "0"]
MthInit == /\ bi \in 1..Len(BasisSeq) /\ xs \in BasisSeq[bi][3] /\ m \in BasisSeq[bi][4]
           /\ Alive(BasisSeq[bi][1], xs[1], xs[2])
           /\ k = 0 /\ acc = Acc0 /\ log = <<Acc0>> /\ obs = NoQuery
Run == obs = NoQuery
Living == RLt(0, acc.S)
Step == IF m = 0
  THEN [S |-> P(Mo, X, S, k + 1), v |-> rr(Vt(ii, k + 1)),
        A |-> rr(RAdd(acc.A, InsPiece(Mo, ii, X, S, k, 1, 1, 1, 0))), A2 |-> rr(RAdd(acc.A2, InsPiece(Mo, ii, X, S, k, 1, 2, 1, 0))),
        B |-> rr(RAdd(acc.B, InsPiece(Mo, ii, X, S, k, 1, 1, c0, 7))), B2 |-> "0", Ba |-> IF General THEN rr(RAdd(acc.Ba, AnnPiece(Mo, ii, X, S, k, 1, c0, 7))) ELSE "0",
        a |-> rr(RAdd(acc.a, AnnPiece(Mo, ii, X, S, k, 1, 1, 0))), Y |-> "0",
        Y2 |-> IF Positive THEN "0" ELSE rr(RAdd(acc.Y2, AnnPiece(Mo, ii, X, S, k, 1, 0, 2)))]
  ELSE LET q == QQ(Mo, X, S, tau, Q(1, m))
           v0 == acc.v
           v1 == rr(Vt(ii, Q(k + 1, m)))
           y == RAdd(acc.Y, RDiv(v0, m))
           bv == RMul(Ben(tau), v1)
       IN [S |-> P(Mo, X, S, Q(k + 1, m)), v |-> v1,
           A |-> rr(RAdd(acc.A, RMul(v1, q))), A2 |-> rr(RAdd(acc.A2, RMul(RMul(v1, v1), q))),
           B |-> rr(RAdd(acc.B, RMul(bv, q))), B2 |-> rr(RAdd(acc.B2, RMul(RMul(bv, bv), q))),
           Ba |-> IF General THEN rr(RAdd(acc.Ba, RDiv(RMul(Ben(tau), RMul(v0, acc.S)), m))) ELSE "0",
           a |-> rr(RAdd(acc.a, RDiv(RMul(v0, acc.S), m))), Y |-> y, Y2 |-> rr(RAdd(acc.Y2, RMul(RMul(y, y), q)))]
Tick == /\ Run /\ Living /\ k < Per * BasisSeq[bi][5]
        /\ (m = 0 /\ Mo.frac = "cfm" => Alive(Mo, X, S + n + 1))
        /\ k' = k + 1 /\ acc' = Step
        /\ log' = IF ((k + 1) % Per) = 0 THEN Append(log, acc') ELSE log
        /\ UNCHANGED <<bi, xs, m, obs>>
Gone == ~Living
At(u) == log[u + 1]
Df(f, u) == RSub(acc[f], At(u)[f])            \* from year u to now
Terms == IF Gone THEN {n, n + 2, WHOLE} ELSE {n}
TermsFrom(u) == IF Gone THEN {n - u, n - u + 3, WHOLE} ELSE {n - u}
Bs == {1, 1000}
Ms == {1, 2, VARIANCE}
Pw(b, j) == IF j = 1 THEN R(b) ELSE RMul(b, b)
(* j-th moment of an insurance between u and now, with endowment en now    *)
Mom(u, b, en, j) ==
  LET e1 == RAdd(RMul(b, Df("A", u)), RMul(en, RMul(acc.v, acc.S)))
      e2 == RAdd(RMul(Pw(b, 2), Df("A2", u)), RMul(RMul(en, en), RMul(RMul(acc.v, acc.v), acc.S)))
  IN IF j = 1 THEN e1 ELSE IF j = 2 THEN e2 ELSE Moment2(e2, e1)
(* variance of the annuity payable from u to now, by the twin insurance    *)
VarA(u) ==
  LET At1 == At(u)
      w1 == RMul(At1.v, At1.S)
      w2 == RMul(RMul(At1.v, At1.v), At1.S)
      e1 == RDiv(RAdd(Df("A", u), RMul(acc.v, acc.S)), w1)
      e2 == RDiv(RAdd(Df("A2", u), RMul(RMul(acc.v, acc.v), acc.S)), w2)
      ee == RDiv(RAdd(RSub(1, RMul(2, e1)), e2), RMul(dm, dm))          \* second moment at u
  IN RSub(RMul(w2, ee), RMul(Df("a", u), Df("a", u)))
(* variance of the payments up to now; without interest, of their total amount *)
VarN == IF Positive THEN VarA(0) ELSE RSub(IF m = 0 THEN acc.Y2 ELSE RAdd(acc.Y2, RMul(RMul(acc.Y, acc.Y), acc.S)), RMul(acc.a, acc.a))
VarAsked == Positive \/ Cls = "Mthly"        \* UDD: through the variance of its insurance, so with interest only
VarSc(b) == IF Positive THEN RDiv(b * b, RMul(dm, dm)) ELSE RMul(b * b, RMax(1, acc.Y2))
Imm == IF m = 0 THEN acc.a ELSE RAdd(acc.a, RDiv(RSub(RMul(acc.v, acc.S), 1), m))
(* endless constant force *)
qm == RSub(1, RPowR(Mo.p, Q(1, m)))
Cf(j) == LET w == RSub(RPowR(RAdd(1, ii), Q(j, m)), 1) IN RDiv(qm, RAdd(qm, w))

Tol == "x"
Kn == (IF Mo.id = "B20U" THEN "udd" ELSE "") \o Mo.kind      \* a law whose lives are interpolated inside a year
RowM(c, a, e, sc, tol) == Emit([w |-> Mo.id, i |-> RStr(ii), k |-> (IF m = 0 THEN "c" ELSE "") \o Kn, cls |-> Cls, m |-> m, c |-> c,
                                a |-> [x |-> X, s |-> S] @@ a, e |-> e, sc |-> RStr(RMax(1, sc)), tol |-> tol])
CTol == IF m = 0 /\ Cls = "Mthly" THEN (IF Mo.kind \in {"table", "select"} THEN "5e-6" ELSE "1e-7") ELSE "x"
Row(c, a, e, sc) == RowM(c, a, RStr(e), sc, CTol)
AskTerm == \E t \in Terms, b \in Bs, j \in Ms : obs' = <<"term", t, b, j>>
  /\ Row("term_insurance", [t |-> t, b |-> b, moment |-> j], Mom(0, b, "0", j), Pw(b, j))
AskWhole == Gone /\ \E b \in Bs, j \in Ms : obs' = <<"whole", b, j>>
  /\ Row("whole_life_insurance", [b |-> b, moment |-> j], Mom(0, b, "0", j), Pw(b, j))
AskEndow == \E t \in Terms, b \in Bs, en \in {-1, 0, 250}, j \in Ms : obs' = <<"endow", t, b, en, j>>
  /\ Row("endowment_insurance", [t |-> t, b |-> b, endowment |-> en, moment |-> j], Mom(0, b, IF en < 0 THEN R(b) ELSE R(en), j), Pw(b + 250, j))
AskE == \E b \in Bs, j \in {1, 2} : obs' = <<"E", b, j>>
  /\ Row("E_x", [t |-> n, endowment |-> b, moment |-> j], RMul(Pw(b, j), RMul(IF j = 1 THEN acc.v ELSE RMul(acc.v, acc.v), acc.S)), Pw(b, j))
AskDefer == \E u \in 0..n : \E t \in TermsFrom(u), b \in Bs, j \in Ms : obs' = <<"defer", u, t, b, j>>
  /\ Row("deferred_insurance", [n |-> u, t |-> t, b |-> b, moment |-> j], Mom(u, b, "0", j), Pw(b, j))
Aw(b) == RMul(b, 1)
AskAnn == \E t \in Terms, b \in Bs : obs' = <<"ann", t, b>>
  /\ Row("temporary_annuity", [t |-> t, b |-> b], RMul(b, acc.a), b)
  /\ (IF VarAsked THEN Row("temporary_annuity", [t |-> t, b |-> b, variance |-> TRUE], RMul(b * b, VarN), VarSc(b)) ELSE TRUE)
  /\ Row("immediate_annuity", [t |-> t, b |-> b], RMul(b, Imm), b)
AskWholeA == Gone /\ \E b \in Bs : obs' = <<"wholea", b>>
  /\ Row("whole_life_annuity", [b |-> b], RMul(b, acc.a), b)
  /\ (IF VarAsked THEN Row("whole_life_annuity", [b |-> b, variance |-> TRUE], RMul(b * b, VarN), VarSc(b)) ELSE TRUE)
AskDeferA == \E u \in 0..n : \E t \in TermsFrom(u), b \in Bs : obs' = <<"defera", u, t, b>>
  /\ Row("deferred_annuity", [u |-> u, t |-> t, b |-> b], RMul(b, Df("a", u)), b)
(* deferred past the last year anyone survives: nothing *)
AskPast == Gone /\ \E u \in {n + 1, n + 3}, t \in {0, 2, WHOLE} : obs' = <<"past", u, t>>
  /\ \A j \in Ms : Row("deferred_insurance", [n |-> u, t |-> t, b |-> 1000, moment |-> j], 0, 1)
  /\ Row("deferred_annuity", [u |-> u, t |-> t, b |-> 1000], 0, 1)
AskTwin == Positive /\ k > 0 /\ obs' = <<"twin">> /\
  LET A1 == Mom(0, 1, "1", 1) A2 == Mom(0, 1, "1", 2) R0(c, a, e, sc) == Emit([w |-> Mo.id, i |-> RStr(ii), k |-> Kn, cls |-> Cls, m |-> m, c |-> c, a |-> a, e |-> RStr(e), sc |-> RStr(sc), tol |-> "x"]) IN
  /\ R0("insurance_twin", [a |-> RStr(acc.a)], A1, 1)
  /\ R0("annuity_twin", [A |-> RStr(A1)], acc.a, 1)
  /\ \A b \in Bs : R0("annuity_variance", [A1 |-> RStr(A1), A2 |-> RStr(A2), b |-> b], RMul(b * b, VarA(0)), RDiv(b * b, RMul(dm, dm)))
AskForever == Mo.kind = "cforce" /\ k = 0 /\ m > 0 /\ \E b \in Bs : obs' = <<"forever", b>>
  /\ \A j \in {1, 2} : Row("whole_life_insurance", [b |-> b, moment |-> j], RMul(Pw(b, j), Cf(j)), Pw(b, j))
  /\ Row("whole_life_insurance", [b |-> b, moment |-> VARIANCE], RMul(b * b, Moment2(Cf(2), Cf(1))), b * b)
  /\ Row("term_insurance", [b |-> b, t |-> WHOLE], RMul(b, Cf(1)), b)
  /\ (IF ~Positive THEN Row("whole_life_annuity", [b |-> b], RDiv(b, RMul(m, qm)), b) ELSE
        /\ Row("whole_life_annuity", [b |-> b], RMul(b, RDiv(RSub(1, Cf(1)), dm)), b)
        /\ Row("deferred_annuity", [b |-> b, u |-> 3], RMul(RMul(b, RMul(Vt(ii, 3), RPow(Mo.p, 3))), RDiv(RSub(1, Cf(1)), dm)), b)
        /\ Row("whole_life_annuity", [b |-> b, variance |-> TRUE], RMul(b * b, RDiv(Moment2(Cf(2), Cf(1)), RMul(dm, dm))), RDiv(b * b, RMul(dm, dm))))
AskCommon == Whole /\ (AskTerm \/ AskWhole \/ AskEndow \/ AskE \/ AskDefer \/ AskAnn \/ AskWholeA \/ AskDeferA \/ AskPast \/ AskTwin)
---------------------------------------------------------------------------
eps == RPow(10, -35)
Inv_S == Run => RNear(acc.S, P(Mo, X, S, tau))
(* 1 = A + v^t p + d(m) a *)
Inv_Twin == (Run /\ (m > 0 \/ Positive)) => RTol(RAdd(RAdd(acc.A, RMul(acc.v, acc.S)), RMul(dm, acc.a)), 1, eps)
(* the variance of the payments made is that of the twin insurance *)
Inv_Var == (Run /\ m > 0 /\ Positive) =>
   RTol(VarA(0), RSub(RAdd(acc.Y2, RMul(RMul(acc.Y, acc.Y), acc.S)), RMul(acc.a, acc.a)), RPow(10, -30))
IsUni == Mo.frac = "udd"
(* uniform deaths: the insurance is i / i(m) times the annual one, the annuity is alpha a - beta (1 - E) *)
im == IF m = 0 THEN Delta(ii) ELSE Im(ii, m)
Alpha == IF Positive THEN RDiv(RMul(ii, Disc(ii)), RMul(im, dm)) ELSE "1"
Beta == IF Positive THEN RDiv(RSub(ii, im), RMul(im, dm)) ELSE IF m = 0 THEN Q(1, 2) ELSE Q(m - 1, 2 * m)
One1(z) == "1"
Inv_Udd == (Run /\ Whole /\ IsUni) =>
   /\ RTol(acc.A, RMul(IF Positive THEN RDiv(ii, im) ELSE "1", Ins(Mo, ii, X, S, 0, n, 1, One1, "0")), eps)
   /\ RTol(acc.a, RSub(RMul(Alpha, Ann(Mo, ii, X, S, 0, n, One1)), RMul(Beta, RSub(1, RMul(acc.v, acc.S)))), eps)
(* more frequent payments bring benefits forward: A(m) > A, a(m) < a *)
Inv_Order == (Run /\ Whole /\ k > 0) => RLe(Ins(Mo, ii, X, S, 0, n, 1, One1, "0"), RAdd(acc.A, eps)) /\ RLe(acc.a, RAdd(Ann(Mo, ii, X, S, 0, n, One1), eps))
=============================================================================
