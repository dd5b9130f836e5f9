-------------------------------- MODULE Q28 --------------------------------
(***************************************************************************)
(* P28: probability laws of portfolios.  State: a portfolio that takes in  *)
(* one independent life at a time.  A common factor, drawn once, makes the *)
(* chance of each life's event p1 (probability p) or p2.  d1 and d2 are    *)
(* the distributions of the number of events under either factor, built by *)
(* convolution one life at a time; every moment asked of the code is taken *)
(* from these distributions (or from a joint distribution listed in full). *)
(***************************************************************************)
EXTENDS Rat, Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS NMax, NoQuery
VARIABLES p, p1, p2, n, d1, d2, obs
vars == <<p, p1, p2, n, d1, d2, obs>>
Seed == Param("seed", 1)
Thorough == Param("thorough", 0)
H(k, m) == Hash(<<Seed, k>>, m)
Ps == {"0", "1", Q(1, 2), Q(1, 5), Q(9, 10)} \cup {Q(H(<<"p", j>>, 999) + 1, 1000) : j \in 1..(2 + 2 * Thorough)}
Fs == {Q(1, 3), "0", "1", Q(H("f", 999) + 1, 1000)}
(* distributions are sequences: d[k+1] is the probability of k events *)
At(d, k) == IF k < 0 \/ k + 1 > Len(d) THEN "0" ELSE d[k + 1]
Join(d, q) == [j \in 1..(Len(d) + 1) |-> RAdd(RMul(At(d, j - 1), RSub(1, q)), RMul(At(d, j - 2), q))]
Mix(a, b, w) == [j \in 1..Len(a) |-> RAdd(RMul(w, a[j]), RMul(RSub(1, w), b[j]))]
Mean(d) == RSum([j \in 1..Len(d) |-> RMul(d[j], j - 1)])
Sq(d) == RSum([j \in 1..Len(d) |-> RMul(d[j], (j - 1) * (j - 1))])
Var(d) == RSub(Sq(d), RPow(Mean(d), 2))
Run == obs = NoQuery
Init == /\ p \in Fs /\ p1 \in Ps /\ p2 \in Ps /\ n = 0 /\ d1 = <<"1">> /\ d2 = <<"1">> /\ obs = NoQuery
Tick == Run /\ n < NMax /\ n' = n + 1 /\ d1' = Mat(Join(d1, p1)) /\ d2' = Mat(Join(d2, p2)) /\ UNCHANGED <<p, p1, p2, obs>>
(*-------------------------------------------------------------- queries *)
RowS(c, a, v, sc) == Emit([c |-> c, k |-> "life", a |-> a, e |-> v, tol |-> "x", sc |-> sc])
Row(c, a, v) == RowS(c, a, v, 1)
Same == UNCHANGED <<p, p1, p2, n, d1, d2>>
Q1 == Run /\ n > 0 /\ REq(p2, 0) /\ REq(p, 1) /\ obs' = <<"binomial">> /\ Same
  /\ Row("life_binomial", [p |-> RStr(p1), N |-> n], RStr(Mean(d1)))
  /\ Row("life_binomial", [p |-> RStr(p1), N |-> n, variance |-> TRUE], RStr(Var(d1)))
Q2 == Run /\ n > 0 /\ obs' = <<"mixture">> /\ Same
  /\ LET m == Mix(d1, d2, p)
         a == [p |-> RStr(p), p1 |-> RStr(p1), p2 |-> RStr(p2)] @@ (IF n = 1 /\ H(<<p1, p2>>, 2) = 0 THEN <<>> ELSE [N |-> n])
     IN /\ Row("life_mixture", a, RStr(Mean(m))) /\ Row("life_mixture", a @@ [variance |-> TRUE], RStr(Var(m)))
        /\ Row("life_conditional_variance", a, RStr(Var(m)))
(* a payment of a with probability p, else b *)
Pays == {<<"1", "0">>, <<"0", "1">>, <<"100", "20">>, <<"-3", "7.5">>, <<"4", "4">>, <<"1000.25", "-50">>}
Two(w, x) == RAdd(RMul(p1, w), RMul(RSub(1, p1), x))
Q3 == Run /\ n = 0 /\ REq(p2, 0) /\ REq(p, 1) /\ obs' = <<"bernoulli">> /\ Same
  /\ \A w \in Pays : LET a == RRec(w[1]) b == RRec(w[2]) m == Two(a, b)
                         k == [p |-> RStr(p1), a |-> w[1], b |-> w[2]]
                     IN /\ Row("life_bernoulli", k, RStr(m))
                        /\ Row("life_bernoulli", k @@ [variance |-> TRUE], RStr(Two(RPow(RSub(a, m), 2), RPow(RSub(b, m), 2))))
  /\ Row("life_bernoulli", [p |-> RStr(p1)], RStr(p1)) /\ Row("life_bernoulli", [p |-> RStr(p1), variance |-> TRUE], RStr(Two(RPow(RSub(1, p1), 2), RPow(p1, 2))))
(* two payments on correlated events: Pr(both), Pr(first only), Pr(second only), Pr(none) drawn *)
Cell(j) == H(<<p1, p2, "cell", j>>, 50)
Tot == Cell(1) + Cell(2) + Cell(3) + Cell(4) + 1
Pr(j) == IF j = 4 THEN Q(Cell(4) + 1, Tot) ELSE Q(Cell(j), Tot)
XV(j) == IF j \in {1, 2} THEN R(H(<<p1, "x">>, 9) + 1) ELSE R(0 - H(<<p2, "x0">>, 4))
YV(j) == IF j \in {1, 3} THEN R(H(<<p2, "y">>, 9) + 2) ELSE R(H(<<p1, "y0">>, 2))
Ex(f(_)) == RSum([j \in 1..4 |-> RMul(Pr(j), f(j))])
EX == Ex(LAMBDA j : XV(j))
EY == Ex(LAMBDA j : YV(j))
EXY == Ex(LAMBDA j : RMul(XV(j), YV(j)))
Cov == Ex(LAMBDA j : RMul(RSub(XV(j), EX), RSub(YV(j), EY)))
VX == Ex(LAMBDA j : RPow(RSub(XV(j), EX), 2))
VY == Ex(LAMBDA j : RPow(RSub(YV(j), EY), 2))
Mults == {<<1, 1>>, <<1, -1>>, <<3, 0>>, <<-2, 5>>, <<100, 40>>}
VLin(m) == LET z(j) == RAdd(RMul(m[1], XV(j)), RMul(m[2], YV(j)))
               ez == Ex(z)
           IN Ex(LAMBDA j : RPow(RSub(z(j), ez), 2))
Q4 == Run /\ n = 0 /\ REq(p, 1) /\ obs' = <<"joint">> /\ Same
  /\ Row("life_covariance", [a |-> RStr(EX), b |-> RStr(EY), ab |-> RStr(EXY)], RStr(Cov))
  /\ \A m \in Mults : Row("life_variance", [a |-> m[1], b |-> m[2], var_a |-> RStr(VX), var_b |-> RStr(VY), cov_ab |-> RStr(Cov)], RStr(VLin(m)))
(* normal approximation to the total of N independent claims with mean and variance of one event *)
Zs == {"-3", "-1.645", "-0.5", "0", "0.253", "0.842", "1", "1.28", "1.645", "1.96", "2.326", "3"}
Sum1 == {<<"100", "2500">>, <<"0", "1">>, <<"-12.5", "3.24">>, <<"1250000", "40000000">>}
Size == IF n = 0 THEN <<>> ELSE [N |-> IF n = 1 THEN 1 ELSE IF n = 2 THEN 250 ELSE 10000]
NN == IF n <= 1 THEN 1 ELSE IF n = 2 THEN 250 ELSE 10000
Q5 == Run /\ n <= 3 /\ REq(p2, 0) /\ REq(p1, 0) /\ REq(p, 1) /\ obs' = <<"normal">> /\ Same
  /\ \A z \in Zs, m \in Sum1 :
       LET mu == RMul(NN, RRec(m[1]))
           sd == RSqrt(RMul(NN, RRec(m[2])))
           v == RRnd(RAdd(mu, RMul(RRec(z), sd)), 45)
           sc == RStr(RAdd(RMax(mu, RNeg(mu)), sd))
       IN /\ RowS("life_percentile", [mean |-> m[1], variance |-> m[2], prob |-> RStr(RPhi(RRec(z)))] @@ Size, RStr(v), sc)
          /\ Row("life_cdf", [mean |-> m[1], variance |-> m[2], value |-> RStr(v)] @@ Size, RStr(RPhi(RRec(z))))
(* the table of quantiles: for each probability the z whose distribution function is that probability, both to 3 decimals *)
ZOf == << <<"0.842", "0.8">>, <<"1.036", "0.85">>, <<"1.282", "0.9">>, <<"1.645", "0.95">>, <<"1.96", "0.975">>, <<"2.326", "0.99">>, <<"2.576", "0.995">> >>
ZOther == << <<"-1.645", "0.05">>, <<"0.0", "0.5">>, <<"0.674", "0.75">>, <<"3.09", "0.999">> >>
ASSUME \A q \in {ZOf[j] : j \in 1..7} \cup {ZOther[j] : j \in 1..4} :
  RLe(RPhi(RSub(RRec(q[1]), Q(5, 10000))), RRec(q[2])) /\ RLe(RRec(q[2]), RPhi(RAdd(RRec(q[1]), Q(5, 10000))))
Q6 == Run /\ n = 0 /\ REq(p2, 0) /\ REq(p1, 0) /\ REq(p, 1) /\ obs' = <<"table">> /\ Same
  /\ Row("life_quantiles", <<>>, ZOf)
  /\ Row("life_quantiles", [quantiles |-> [j \in 1..4 |-> ZOther[j][2]]], ZOther)
Bad == {<<"binomial", [p |-> "1.1", N |-> 2]>>, <<"binomial", [p |-> "-0.1", N |-> 2]>>, <<"binomial", [p |-> "0.5", N |-> 0]>>, <<"bernoulli", [p |-> "1.01"]>>,
        <<"mixture", [p |-> "0.5", p1 |-> "1.2", p2 |-> "0.1", N |-> 3]>>, <<"mixture", [p |-> "-0.5", p1 |-> "0.2", p2 |-> "0.1"]>>,
        <<"mixture", [p |-> "0.5", p1 |-> "0.2", p2 |-> "-0.1", N |-> 3]>>, <<"conditional_variance", [p |-> "0.5", p1 |-> "0.2", p2 |-> "1.1", N |-> 3]>>,
        <<"conditional_variance", [p |-> "2", p1 |-> "0.2", p2 |-> "0.1"]>>, <<"percentile", [mean |-> "1", variance |-> "1", prob |-> "1"]>>}
Q7 == Run /\ n = 0 /\ REq(p2, 0) /\ REq(p1, 0) /\ REq(p, 1) /\ obs' = <<"bad">> /\ Same
  /\ \A b \in Bad : Emit([c |-> "life_" \o b[1], k |-> "life", a |-> b[2], e |-> "raises", tol |-> "x"])
Next == Tick \/ Q1 \/ Q2 \/ Q3 \/ Q4 \/ Q5 \/ Q6 \/ Q7
---------------------------------------------------------------------------
Inv_Dist == \A d \in {d1, d2} : Len(d) = n + 1 /\ REq(RSum(d), 1) /\ \A j \in 1..Len(d) : RLe(0, d[j])
Inv_Binomial == REq(Mean(d1), RMul(n, p1)) /\ REq(Var(d1), RMul(RMul(n, p1), RSub(1, p1)))
(* variance of a mixture: variance of the means plus mean of the variances *)
Inv_Total == LET m == Mix(d1, d2, p)
             IN REq(Var(m), RAdd(RMul(RMul(p, RSub(1, p)), RPow(RSub(Mean(d1), Mean(d2)), 2)), RAdd(RMul(p, Var(d1)), RMul(RSub(1, p), Var(d2)))))
(* a shared factor makes the spread wider than independent lives of the same overall chance *)
Inv_Wider == LET m == Mix(d1, d2, p)
                 q == RAdd(RMul(p, p1), RMul(RSub(1, p), p2))
             IN RLe(RMul(RMul(n, q), RSub(1, q)), Var(m))
Inv_Cov == REq(Cov, RSub(EXY, RMul(EX, EY))) /\ RLe(RPow(Cov, 2), RMul(VX, VY))
=============================================================================
