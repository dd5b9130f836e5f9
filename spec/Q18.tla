-------------------------------- MODULE Q18 --------------------------------
(***************************************************************************)
(* P18: the reserves table.  An object holds known reserves of a policy;   *)
(* reserves are set by hand, filled in by the recursion from the terms of  *)
(* a contract, and asked for one at a time.  The state is the table itself *)
(* after any history of these operations.                                  *)
(***************************************************************************)
EXTENDS Portfolio
VARIABLES tab, T, hist, clean
rvars == <<tab, T, hist, clean>>
TM == 9
None == "none"
(* the one-year equation: (V_t + premium less expenses)(1 + i) = q (benefit + V_{t+1} if returned) + p V_{t+1} *)
Pt(t) == IF Alive(Mo, X, S + t) THEN P(Mo, X, S + t, 1) ELSE "0"
Fwd(v, t, net, b, ret) ==      \* from V_t to V_{t+1}
  LET f == RSub(RMul(RAdd(v, net), RAdd(1, ii)), RMul(RSub(1, Pt(t)), b))
  IN IF ret THEN f ELSE RDiv(f, Pt(t))
Bwd(v, t, net, b, ret) ==      \* from V_{t+1} to V_t
  RSub(RMul(Vf(ii), RAdd(RMul(Pt(t), v), RMul(RSub(1, Pt(t)), RAdd(b, IF ret THEN v ELSE "0")))), net)
NetAt(t) == IF t = 0 THEN RSub(RMul(G, RSub(1, Po.im)), Po.ip) ELSE Profit
RECURSIVE FillUp(_, _, _)
FillUp(tb, t, ret) ==
  IF t > T THEN tb
  ELSE IF tb[t] # None THEN FillUp(tb, t + 1, ret)
  ELSE FillUp([tb EXCEPT ![t] = Fwd(tb[t - 1], t - 1, NetAt(t - 1), Claims, ret)], t + 1, ret)
Empty == [t \in 0..TM |-> None]
(* what may be set: term and endowment, some values, values past the term   *)
Some(t) == Q(Hash(<<Seed, "V", bi, pl, t>>, 4000) + 1, 8)
Given == {{}, {2}, {1, 3}, {Years + 1}, 1..(Years - 1)}
Upd(tb, vs, tt, en) == [t \in 0..TM |-> IF t = 0 THEN "0" ELSE IF t = tt THEN R(en) ELSE IF t \in vs THEN Some(t) ELSE tb[t]]
VJson(vs) == {<<t, RStr(Some(t))>> : t \in vs}
Here == obs = NoQuery
SetNew == Here /\ hist = <<>> /\ \E vs \in Given :
  /\ T' = Years /\ tab' = Upd(Empty, vs, Years, Po.en) /\ clean' = (vs = {})
  /\ hist' = <<[op |-> "set", T |-> Years, endowment |-> Po.en, V |-> VJson(vs)]>>
(* all reserves of the policy given: the term is that of the last of them *)
SetAll == Here /\ hist = <<>> /\ tab' = Upd(Empty, 1..(Years - 1), Years, Po.en) /\ T' = Years /\ clean' = FALSE
  /\ hist' = <<[op |-> "set", endowment |-> Po.en, V |-> VJson(1..(Years - 1)) \cup {<<0, "0">>, <<Years, RStr(Po.en)>>}]>>
SetMore == Here /\ hist # <<>> /\ Len(hist) < 3 /\ \E vs \in {{}, {1}, {2, 3}} :
  /\ tab' = Upd(tab, vs, T, Po.en) /\ UNCHANGED T /\ clean' = (clean /\ vs = {})
  /\ (vs = {} \/ \A t \in vs : t < T)
  /\ hist' = Append(hist, [op |-> "set", endowment |-> Po.en, V |-> VJson(vs)])
Fillable(ret) == \A t \in 0..(T - 1) : tab[t] = None => (ret \/ RLt(0, Pt(t - 1)))
Fill == Here /\ hist # <<>> /\ Len(hist) < 3 /\ \E ret \in BOOLEAN : Fillable(ret)
  /\ tab' = FillUp(tab, 1, ret) /\ UNCHANGED <<T>> /\ clean' = (clean /\ ~ret)
  /\ hist' = Append(hist, [op |-> "fill", x |-> X, s |-> S, ret |-> ret, contract |-> ContractOf])
Row18(c, a, e) == Emit([w |-> Mo.id, i |-> RStr(ii), c |-> c, a |-> [hist |-> hist] @@ a, e |-> e, tol |-> "x", sc |-> RStr(RAdd(Claims, 1000))])
Tab == Mat([t \in {ToString(u) : u \in {v \in 0..TM : tab[v] # None}} |-> RStr(tab[CHOOSE v \in 0..TM : ToString(v) = t])])
(* one reserve, with benefit b0 + b1 t at time t, premium g, expenses k per policy and r per premium *)
TermSeq == <<<<R(Po.b), "0", G, R(Po.rp), Po.rm>>, <<R(100), R(50), Q(61, 2), "0", "0">>, <<"0", "0", R(40), R(5), Q(1, 10)>> >>
(* benefit equal to the next reserve, or cancelling it *)
Knife(t, k) == IF tab[t + 1] = None THEN TermSeq[1] ELSE <<IF (k % 2) = 0 THEN tab[t + 1] ELSE RNeg(tab[t + 1]), "0", R(40), R(5), Q(1, 10)>>
Ben(c, t) == RAdd(c[1], RMul(c[2], t))
NetOf(c) == RSub(RMul(c[3], RSub(1, c[5])), c[4])
str(z) == IF z = None THEN None ELSE RStr(z)
(* a choice of terms for the questions of this state                        *)
Pick18(k) == Hash(<<Seed, "q18", hist, bi, pl, k>>, 16)
Ask1(t) ==
  LET c == IF (Pick18(t) % 4) = 3 THEN Knife(t, Pick18(t) \div 8) ELSE TermSeq[(Pick18(t) % 4) + 1]
      ret == ((Pick18(t) \div 4) % 2) = 1
      hasF == t > 0 /\ tab[t - 1] # None
      hasB == tab[t + 1] # None
      okF == ret \/ (t > 0 /\ RLt(0, Pt(t - 1)))
      okB == Alive(Mo, X, S + t)
      fw == Fwd(tab[t - 1], t - 1, NetOf(c), Ben(c, t), ret)
      bw == Bwd(tab[t + 1], t, NetOf(c), Ben(c, t + 1), ret)
      A == [t |-> t, ret |-> ret, b0 |-> RStr(c[1]), b1 |-> RStr(c[2]), premium |-> RStr(c[3]), per_policy |-> RStr(c[4]), per_premium |-> RStr(c[5])]
  IN IF (t > 0 /\ hasF /\ ~okF) \/ (hasB /\ ~okB) \/ (hasF /\ ~Alive(Mo, X, S + t - 1)) THEN <<A, <<>> >>
     ELSE <<A, <<str(IF tab[t] # None THEN tab[t] ELSE IF hasF THEN fw ELSE IF hasB THEN bw ELSE None),
                 str(IF hasF THEN fw ELSE None), str(IF hasB THEN bw ELSE None)>> >>
AskOne == obs' = <<"probe">> /\
  LET qs == Mat([t \in 1..(T + 2) |-> Ask1(t - 1)])
      ok == SelectSeq(qs, LAMBDA q : q[2] # <<>>)
  IN Row18("reserves", [x |-> X, s |-> S, asks |-> Mat([j \in 1..Len(ok) |-> ok[j][1]])],
           [table |-> Tab, asks |-> Mat([j \in 1..Len(ok) |-> ok[j][2]])])
Ask == Here /\ hist # <<>> /\ UNCHANGED rvars /\ AskOne
Init == PolicyInit /\ (Thorough \/ Hash(<<Seed, "p18", bi, pl>>, 2) = 0) /\ Po.N # WHOLE /\ Years > 1 /\ Years < TM - 1 /\ xs \in {<<PolSeq[bi][1].x0, 0>>, <<PolSeq[bi][1].x0, 1>>, <<4, 3>>, <<10, 4>>}
        /\ tab = Empty /\ T = 0 /\ hist = <<>> /\ clean = TRUE
Next == UNCHANGED <<bi, xs, pl, G, n, sv, fund>> /\ (((SetNew \/ SetAll \/ SetMore \/ Fill) /\ UNCHANGED obs) \/ Ask)
(* a table filled in from nothing holds the gross premium policy values, when the premium is the equivalence premium *)
Inv_Filled == (Here /\ clean /\ Po.g = "eq" /\ hist # <<>> /\ InForce) => \A t \in 0..T : tab[t] # None => (Alive(Mo, X, S + t) => REq(tab[t], Vpro(t)))
(* forward and backward recursion are inverse to each other                 *)
Inv_Inverse == (Here /\ hist # <<>>) => \A t \in 0..(T - 1), ret \in BOOLEAN : (tab[t] # None /\ Alive(Mo, X, S + t) /\ (ret \/ RLt(0, Pt(t)))) =>
   REq(Bwd(Fwd(tab[t], t, NetAt(t), Claims, ret), t, NetAt(t), Claims, ret), tab[t])
=============================================================================
