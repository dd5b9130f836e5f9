-------------------------------- MODULE Q32 --------------------------------
(***************************************************************************)
(* P32: plots of present values and reserves.  State: the time of death    *)
(* moves on year by year from issue; the heights so far of the present     *)
(* values of a benefit, of an annuity and of the loss on a policy if death *)
(* came then, and the survival probabilities.  Asked: the plot up to now,  *)
(* with or without survival probabilities and a marked time.               *)
(***************************************************************************)
EXTENDS Worlds
CONSTANTS BasisSeq, NoQuery      \* sequence of <<model, rate, set of <<x, s>>, years>>
VARIABLES bi, xs, n, bars, obs
vars == <<bi, xs, n, bars, obs>>
Mo == BasisSeq[bi][1]
ii == BasisSeq[bi][2]
X == xs[1]
S == xs[2]
dl == Delta(ii)
Bases == << <<T40, Q(1, 20), {<<40, 0>>, <<41, 2>>}, 5>>, <<T40, "0", {<<40, 1>>}, 4>>, <<T40, Q(1, 250), {<<40, 2>>}, 3>>, <<T40C, Q(1, 10), {<<41, 1>>}, 4>>, <<TR(1, 7), Q(1, 25), {<<TR(1, 7).x0, 1>>}, 5>>,
            <<S60, Q(1, 20), {<<60, 0>>, <<60, 1>>, <<61, 2>>}, 5>>, <<U12, Q(1, 10), {<<2, 3>>}, 6>>, <<CF1, Q(1, 20), {<<30, 0>>, <<30, 4>>}, 4>>, <<GOM, Q(1, 20), {<<40, 2>>}, 3>> >>
Bens == <<  <<1, 0, 0>>, <<5, 7, 2>> >>
Cons == << [g |-> Q(1, 5), b |-> 1, en |-> 0, st |-> 0, ip |-> 0, im |-> "0", rp |-> 0, rm |-> "0", T |-> WHOLE],
           [g |-> R(60), b |-> 1000, en |-> 400, st |-> 10, ip |-> 30, im |-> Q(1, 4), rp |-> 2, rm |-> Q(1, 20), T |-> 3] >>
ConDef(c, d) == [premium |-> RStr(c.g), benefit |-> c.b, endowment |-> c.en, settlement_policy |-> c.st, initial_policy |-> c.ip, initial_premium |-> RStr(c.im),
                 renewal_policy |-> c.rp, renewal_premium |-> RStr(c.rm), T |-> c.T, discrete |-> d]
(*--------------------------------------- present values if death comes at t *)
Amount(b, t) == RAdd(RAdd(b[1], RMul(b[2], RAdd(S, t))), b[3] * X)
Zat(t, d) == IF d THEN Vt(ii, RFloor(t) + 1) ELSE Vt(ii, t)
Yat(t, d) == IF d THEN Certain(ii, RFloor(t) + 1) ELSE IF RLt(0, ii) THEN RDiv(RSub(1, Vt(ii, t)), dl) ELSE R(t)
Init0(c) == RAdd(c.ip - c.rp, RMul(c.g, RSub(c.im, c.rm)))
Prof(c) == RSub(RMul(c.g, RSub(1, c.rm)), c.rp)
Lat(c, t, d) ==
  LET over == c.T > 0 /\ RLe(c.T, IF d THEN R(RFloor(t)) ELSE t)
      out == IF over THEN RMul(c.en, Vt(ii, c.T)) ELSE RMul(c.b + c.st, Zat(t, d))
      inc == RMul(Prof(c), IF over THEN (IF d THEN Certain(ii, c.T) ELSE Yat(R(c.T), FALSE)) ELSE Yat(t, d))
  IN RAdd(RSub(out, inc), Init0(c))
(* the axis of a plot over n years: whole years, or tenths of the plot      *)
Axis(d) == IF d THEN [j \in 1..(n + 1) |-> R(j - 1)] ELSE [j \in 1..10 |-> Q(n * j, 10)]
Str(s) == [j \in 1..Len(s) |-> RStr(s[j])]
Heights(h(_, _), d) == LET ax == Axis(d) IN [j \in 1..Len(ax) |-> h(ax[j], d)]
Surv(d) == LET ax == Axis(d) IN [j \in 1..Len(ax) |-> P(Mo, X, S, ax[j])]
Bar0(k) == [Z |-> Zat(k, TRUE), Y |-> Yat(k, TRUE), L |-> Lat(Cons[2], k, TRUE)]
Init == bi \in 1..Len(BasisSeq) /\ xs \in BasisSeq[bi][3] /\ n = 0 /\ bars = <<Bar0(0)>> /\ obs = NoQuery
Run == obs = NoQuery
Tick == /\ Run /\ n < BasisSeq[bi][4] /\ n' = n + 1 /\ bars' = Append(bars, Bar0(n + 1)) /\ UNCHANGED <<bi, xs, obs>>
None == "none"
Row(fn, kw, h(_, _), d, T, dual) ==
  LET e == [ret |-> IF T = None THEN None ELSE RStr(h(T, d)), bars |-> Str(Heights(h, d)),
            dot |-> IF T = None THEN <<>> ELSE <<RStr(T), RStr(h(T, d))>>,
            surv |-> IF dual THEN Str(Surv(d)) ELSE <<>>,
            sdot |-> IF dual /\ T # None THEN <<RStr(T), RStr(P(Mo, X, S, T))>> ELSE <<>>]
      a == [x |-> X, s |-> S, stop |-> n, dual |-> dual] @@ (IF T = None THEN <<>> ELSE [T |-> RStr(T)]) @@ kw
  IN Emit([w |-> Mo.id, k |-> Mo.kind, i |-> RStr(ii), c |-> "plot", a |-> [fn |-> fn, kw |-> a, at |-> Str(Axis(d))], e |-> e, tol |-> "1e-7", sc |-> 1])
Marks == {None, R(1), Q(3, 2)}
Asked(dual, T) == IF T = None THEN TRUE ELSE dual \/ T # R(1)
AskZ == \E b \in {1, 2}, d, dual \in BOOLEAN, T \in Marks : Asked(dual, T) /\ obs' = <<"Z", b, d, dual, T>>
  /\ Row("Z_plot", [benefit |-> Bens[b], discrete |-> d], LAMBDA t, c : RMul(Amount(Bens[b], t), Zat(t, c)), d, T, dual)
AskY == \E b \in {1, 2}, d, dual \in BOOLEAN, T \in Marks : Asked(dual, T) /\ obs' = <<"Y", b, d, dual, T>>
  /\ Row("Y_plot", [benefit |-> Bens[b], discrete |-> d], LAMBDA t, c : RMul(Amount(Bens[b], t), Yat(t, c)), d, T, dual)
AskL == \E k \in {1, 2}, d, dual \in BOOLEAN, T \in Marks : Asked(dual, T) /\ obs' = <<"L", k, d, dual, T>>
  /\ Row("L_plot", [contract |-> ConDef(Cons[k], d)], LAMBDA t, c : Lat(Cons[k], t, c), d, T, dual)
(* reserves: a point for every year of the term on record                   *)
AskV == obs' = <<"V">> /\ LET V == [j \in 1..(n + 1) |-> IF j = 1 THEN 0 ELSE IF j = n + 1 THEN 9 ELSE 3 * j + S] IN
  Emit([w |-> Mo.id, k |-> Mo.kind, i |-> RStr(ii), c |-> "vplot", a |-> [T |-> n, V |-> [j \in 1..(n + 1) |-> <<j - 1, V[j]>>]],
        e |-> [x |-> [j \in 1..(n + 1) |-> j - 1], y |-> V], tol |-> "x", sc |-> 1])
Ask == Run /\ n > 0 /\ UNCHANGED <<bi, xs, n, bars>> /\ (AskZ \/ AskY \/ AskL \/ AskV)
Next == Tick \/ Ask
---------------------------------------------------------------------------
(* the present values of benefit and annuity at the same time of death are a fund run down *)
Inv_Twin == RTol(RAdd(bars[n + 1].Z, RMul(Disc(ii), bars[n + 1].Y)), 1, RPow(10, -30))
Inv_Falls == n > 0 => RLe(bars[n + 1].Z, bars[n].Z) /\ RLt(bars[n].Y, bars[n + 1].Y)
(* past the term the loss stands still *)
Inv_Term == n > Cons[2].T => RTol(bars[n + 1].L, bars[n].L, RPow(10, -30))
BasesX == Bases
ASSUME DefAll([k \in 1..Len(Bases) |-> Bases[k][1]])
=============================================================================
