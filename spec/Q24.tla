-------------------------------- MODULE Q24 --------------------------------
(***************************************************************************)
(* P24: the shortcuts for uniform deaths (class UDD), for any life: their  *)
(* values are those of a life with the same lives at whole ages whose      *)
(* deaths are uniform inside each year, valued period by period.           *)
(***************************************************************************)
EXTENDS Mth
Few(M) == {<<M.x0, 0>>, <<M.x0 + 1, 1>>}
U(M) == IF M.frac = "udd" THEN M ELSE [M EXCEPT !.id = @ \o "~U", !.frac = "udd"]
GOMU == U(GOM)
Bases == <<
  <<T40, Q(1, 10), Few(T40), {0, 2, 4, 12}, 9>>, <<U(T40C), Q(1, 20), {<<40, 0>>, <<40, 2>>}, {0, 1, 4}, 9>>,
  <<T40, "0", {<<40, 0>>, <<41, 1>>}, {0, 1, 4, 12}, 9>>, <<U12, "0", {<<4, 3>>}, {0, 2}, 14>>, <<S60, "0", {<<60, 1>>}, {2}, 9>>, <<U(CF1), "0", {<<30, 2>>}, {4}, 4>>,
  <<T40, Q(1, 500), {<<41, 1>>}, {0, 2}, 9>>, <<T0, "1", {<<0, 1>>}, {0, 4}, 9>>,
  <<T0, Q(1, 20), {<<0, 0>>, <<1, 1>>}, {0, 6}, 9>>, <<T97, Q(1, 4), {<<97, 0>>, <<97, 2>>}, {0, 4}, 9>>,
  <<TR(1, 7), Q(1, 8), Few(TR(1, 7)), {0, 12}, 9>>, <<TR(2, 9), Q(Hash(<<Seed, "i24">>, 150) + 1, 1000), {<<TR(2, 9).x0, 1>>}, {3, 4}, 10>>,
  <<S60, Q(1, 10), {<<60, 0>>, <<60, 1>>, <<61, 2>>}, {0, 4}, 9>>, <<SR(1, 6), Q(1, 25), {<<SR(1, 6).x0, 0>>}, {0, 2}, 9>>, <<U(S60C), Q(1, 16), {<<60, 0>>, <<61, 1>>}, {4}, 9>>,
  <<U12, Q(1, 5), {<<0, 0>>, <<4, 3>>}, {0, 12}, 14>>, <<U(B20), Q(1, 25), {<<10, 4>>}, {0, 4}, 7>>, <<U(CF1), Q(1, 25), {<<30, 2>>}, {0, 12}, 4>>,
  <<GOMU, Q(1, 20), {<<30, 0>>, <<50, 5>>}, {0, 12}, 3>> >>
AskDeferV == Positive /\ k > 0 /\ Whole /\ \E u \in 0..(n - 1) : \E t \in TermsFrom(u), b \in Bs : obs' = <<"deferv", u, t, b>>
  /\ Row("deferred_annuity", [u |-> u, t |-> t, b |-> b, variance |-> TRUE], RMul(b * b, VarA(u)), RDiv(b * b, RMul(dm, dm)))
(* the interest functions alpha(m) and beta(m), and their table *)
AskAlpha == k = 0 /\ obs' = <<"alpha">>
  /\ Emit([w |-> "-", k |-> "udd", c |-> "udd_alpha", a |-> [m |-> m, i |-> RStr(ii)], e |-> <<RStr(Alpha), RStr(Beta)>>, tol |-> "x"])
AskFrame == k = 0 /\ m = 0 /\ obs' = <<"frame">> /\
  LET IM(z) == IF z = 0 THEN Delta(ii) ELSE Im(ii, z)
      DM(z) == IF z = 0 THEN Delta(ii) ELSE Dm(ii, z)
      none(z) == <<"0", "0", "1", "1", "1", RStr(RRnd(IF z = 0 THEN Q(1, 2) ELSE Q(z - 1, 2 * z), 5))>>
      line(z) == IF ~Positive THEN none(z) ELSE <<RStr(RRnd(IM(z), 5)), RStr(RRnd(DM(z), 5)), RStr(RRnd(RDiv(ii, IM(z)), 5)), RStr(RRnd(RDiv(Disc(ii), DM(z)), 5)),
                   RStr(RRnd(RDiv(RMul(ii, Disc(ii)), RMul(IM(z), DM(z))), 5)), RStr(RRnd(RDiv(RSub(ii, IM(z)), RMul(IM(z), DM(z))), 5))>>
  IN Emit([w |-> "-", k |-> "udd", c |-> "udd_frame", a |-> [i |-> RStr(ii)], e |-> [z \in {"1", "2", "4", "12", "0"} |->
        line(CASE z = "1" -> 1 [] z = "2" -> 2 [] z = "4" -> 4 [] z = "12" -> 12 [] OTHER -> 0)], tol |-> "1.01e-5"])
Ask == Run /\ UNCHANGED <<bi, xs, m, k, acc, log>> /\ (AskCommon \/ AskDeferV \/ AskAlpha \/ AskFrame)
Init == MthInit
Next == Tick \/ Ask
BasesX == Bases
ASSUME DefAll([j \in 1..Len(Bases) |-> Bases[j][1]])
=============================================================================
