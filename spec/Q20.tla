-------------------------------- MODULE Q20 --------------------------------
(***************************************************************************)
(* P20/P21: solving for what follows from given facts.  A closed group of  *)
(* lives is valued from first principles (Val); its values satisfy the     *)
(* actuarial relations listed in Rules, which say what a value follows     *)
(* from.  State: a goal and the facts from which it has to be found;       *)
(* Expand replaces one of the facts by others that it follows from, so     *)
(* that every state carries a derivation of the goal.  Whatever facts are  *)
(* given, in any state, an answer has to be the true value (Sound); and    *)
(* when the derivation is no deeper than the depth asked for, there has to *)
(* be an answer (Complete).                                                *)
(***************************************************************************)
EXTENDS Rat, Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS NoQuery
VARIABLES wi, goal, facts, height, claim, via, obs
vars == <<wi, goal, facts, height, claim, via, obs>>
Seed == Param("seed", 1)
Thorough == Param("thorough", 0)
H(k, m) == Hash(<<Seed, "rec", k>>, m)
Indices == 1..(4 + 4 * Thorough)
W == -1                                      \* a term of the whole of life
VAR == -2                                    \* a variance in place of a moment
(*---------------------------------------------------------- the true lives *)
N(w) == IF w = 1 THEN 5 ELSE 3 + H(<<w, "n">>, 3)
X0(w) == IF w = 1 THEN 50 ELSE 20 + H(<<w, "x0">>, 60)
Qx(w, x) == IF x >= N(w) - 1 THEN "1" ELSE IF w > 2 /\ H(<<w, "q0", x>>, 9) = 0 THEN "0" ELSE Q(20 + H(<<w, "q", x>>, 500), 1000)
C(w) == IF w = 1 THEN 10 ELSE 7 + H(<<w, "c">>, 60)
NoInt(w) == w % 4 = 3
Vh(w) == IF NoInt(w) THEN "1" ELSE Q(C(w), C(w) + 1)                       \* v^(1/2)
VP(w, k2) == RPow(Vh(w), k2)                                              \* v^(k2/2)
II(w) == RSub(RPow(Vh(w), -2), 1)
DD(w) == RSub(1, VP(w, 2))
Delta == Mat([w \in Indices |-> IF NoInt(w) THEN "0" ELSE RRnd(RMul(-2, RLn(Vh(w))), 45)])
RECURSIVE S(_, _, _)
S(w, x, n) == IF n = 0 THEN "1" ELSE IF x + n > N(w) THEN "0" ELSE RMul(S(w, x, n - 1), RSub(1, Qx(w, x + n - 1)))
Dth(w, x, k) == RSub(S(w, x, k), S(w, x, k + 1))
End(w, x, t) == IF t = W THEN N(w) - x ELSE t
Sum(lo, hi, F(_)) == IF hi < lo THEN "0" ELSE RSum([k \in 1..(hi - lo + 1) |-> F(lo + k - 1)])
(* deaths of year k (from 0) fall in the middle of the year: time k + 1/2; *)
(* twice the time at which a benefit is paid:                              *)
Paid2(k, d) == IF d = 1 THEN 2 * (k + 1) ELSE (2 * k) + 1
(*------------------------------------------- quantities and their values *)
(* <<kind, age, term, deferral, endowment, moment, discrete>>             *)
q(x, t, u) == <<"q", x, t, u, 0, 1, 1>>
p(x, t) == <<"p", x, t, 0, 0, 1, 1>>
ex(x, t, d) == <<"e", x, t, 0, 0, 1, d>>
Ex(x, t, m) == <<"E", x, t, 0, 0, m, 1>>
Ax(x, t, u, en, m, d) == <<"A", x, t, u, en, m, d>>
ax(x, t, u, m, d) == <<"a", x, t, u, 0, m, d>>
IA(x, t, d) == <<"I", x, t, 0, 0, 1, d>>
DA(x, t, d) == <<"D", x, t, 0, 0, 1, d>>
AVal(w, x, t, u, en, m, d) ==
  RAdd(Sum(u, u + End(w, x, t) - 1, LAMBDA k : RMul(VP(w, m * Paid2(k, d)), Dth(w, x, k))),
       IF en = 0 THEN "0" ELSE RMul(RPow(R(en), m), RMul(VP(w, 2 * m * (u + t)), S(w, x, u + t))))
Cont(w, k2a, k2b) == IF NoInt(w) THEN Q(k2b - k2a, 2) ELSE RDiv(RSub(VP(w, k2a), VP(w, k2b)), Delta[w])   \* paid from a to b, in half years
AnnVal(w, x, t, u, d) ==
  IF d = 1 THEN Sum(u, u + End(w, x, t) - 1, LAMBDA k : RMul(VP(w, 2 * k), S(w, x, k)))
  ELSE LET b == u + End(w, x, t)
       IN RAdd(Sum(u, b - 1, LAMBDA k : RMul(Cont(w, 2 * u, (2 * k) + 1), Dth(w, x, k))), RMul(Cont(w, 2 * u, 2 * b), S(w, x, b)))
AnnVar(w, x, t, d) ==        \* of the present value of payments until death or the end of the term
  LET b == End(w, x, t)
      Y(k) == IF d = 1 THEN Sum(0, k, LAMBDA j : VP(w, 2 * j)) ELSE Cont(w, 0, (2 * k) + 1)
      YE == IF d = 1 THEN Sum(0, b - 1, LAMBDA j : VP(w, 2 * j)) ELSE Cont(w, 0, 2 * b)
      M(n) == RAdd(Sum(0, b - 1, LAMBDA k : RMul(RPow(Y(k), n), Dth(w, x, k))), RMul(RPow(YE, n), S(w, x, b)))
  IN RSub(M(2), RPow(M(1), 2))
Val(w, k) == LET x == k[2] t == k[3] u == k[4] en == k[5] m == k[6] d == k[7] IN
  CASE k[1] = "q" -> RSub(S(w, x, u), S(w, x, u + t))
    [] k[1] = "p" -> S(w, x, t)
    [] k[1] = "e" -> LET b == End(w, x, t) IN IF d = 1 THEN Sum(1, b, LAMBDA j : S(w, x, j))
          ELSE RAdd(Sum(0, b - 1, LAMBDA j : RMul(Q((2 * j) + 1, 2), Dth(w, x, j))), RMul(b, S(w, x, b)))
    [] k[1] = "E" -> IF m = VAR THEN RMul(VP(w, 4 * t), RMul(S(w, x, t), RSub(1, S(w, x, t)))) ELSE RMul(VP(w, 2 * m * t), S(w, x, t))
    [] k[1] = "A" -> IF m = VAR THEN RSub(AVal(w, x, t, u, en, 2, d), RPow(AVal(w, x, t, u, en, 1, d), 2)) ELSE AVal(w, x, t, u, en, m, d)
    [] k[1] = "a" -> IF m = VAR THEN AnnVar(w, x, t, d) ELSE AnnVal(w, x, t, u, d)
    [] k[1] = "I" -> Sum(0, End(w, x, t) - 1, LAMBDA j : RMul(Q(Paid2(j, d), 2), RMul(VP(w, Paid2(j, d)), Dth(w, x, j))))
    [] k[1] = "D" -> Sum(0, t - 1, LAMBDA j : RMul(IF d = 1 THEN R(t - j) ELSE Q((2 * t) - (2 * j) - 1, 2), RMul(VP(w, Paid2(j, d)), Dth(w, x, j))))
Ages(w) == 0..(N(w) - 1)
TT == {W, 1, 2, 3}
Keys(w) == {q(x, t, u) : x \in Ages(w), t \in 1..3, u \in 0..2} \cup {p(x, t) : x \in Ages(w), t \in 1..4}
  \cup {ex(x, t, d) : x \in Ages(w), t \in TT \cup {4}, d \in {0, 1}} \cup {Ex(x, t, m) : x \in Ages(w), t \in 1..4, m \in {1, 2, VAR}}
  \cup {Ax(x, t, u, 0, m, d) : x \in Ages(w), t \in TT, u \in 0..2, m \in {1, 2, VAR}, d \in {0, 1}}
  \cup {Ax(x, t, 0, en, m, d) : x \in Ages(w), t \in 1..4, en \in 0..2, m \in {1, 2, VAR}, d \in {0, 1}}
  \cup {ax(x, t, u, 1, d) : x \in Ages(w), t \in TT \cup {4}, u \in 0..2, d \in {0, 1}}
  \cup {ax(x, t, 0, VAR, d) : x \in Ages(w), t \in TT, d \in {0, 1}}
  \cup {IA(x, t, d) : x \in Ages(w), t \in TT, d \in {0, 1}} \cup {DA(x, t, d) : x \in Ages(w), t \in 1..3, d \in {0, 1}}
KeySet == Mat([w \in Indices |-> Keys(w)])
Truth == Mat([w \in Indices |-> Mat([k \in KeySet[w] |-> Val(w, k)])])
(* known of themselves *)
Trivial(k) == \/ k[3] = 0
              \/ k[1] = "a" /\ k[3] = 1 /\ k[4] = 0 /\ k[7] = 1 /\ k[6] = 1
              \/ k[1] = "A" /\ k[3] = 1 /\ k[4] = 0 /\ k[5] = 1 /\ k[7] = 1 /\ k[6] # VAR
TVal(w, k) == IF k \in KeySet[w] THEN Truth[w][k]
              ELSE CASE k[1] \in {"p", "E"} -> "1" [] k[1] = "q" -> "0" [] k[1] = "A" /\ k[3] = 0 -> RPow(R(k[5]), k[6]) [] OTHER -> Val(w, k)
Nz(w, k) == ~REq(TVal(w, k), 0)
Minus(t, n) == IF t = W THEN W ELSE t - n
Plus(t, n) == IF t = W THEN W ELSE t + n
(*---------------------------------- the relations: what a value follows from *)
(* a rule: <<name, premises, value computed from the premises>>            *)
If(c, r) == IF c THEN {r} ELSE {}
Rules(w, k) == LET x == k[2] t == k[3] u == k[4] en == k[5] m == k[6] d == k[7] v(j) == VP(w, 2 * j) T(y) == TVal(w, y) IN
  CASE k[1] = "q" /\ u = 0 -> {<<"complement of survival", <<p(x, t)>>, RSub(1, T(p(x, t)))>>}
    [] k[1] = "q" -> {<<"deferred mortality", <<p(x, u), q(x + u, t, 0)>>, RMul(T(p(x, u)), T(q(x + u, t, 0)))>>,
                      <<"limited mortality", <<q(x, u, 0), q(x, u + t, 0)>>, RSub(T(q(x, u + t, 0)), T(q(x, u, 0)))>>,
                      <<"survival difference", <<p(x, u), p(x, u + t)>>, RSub(T(p(x, u)), T(p(x, u + t)))>>}
    [] k[1] = "p" -> {<<"complement of mortality", <<q(x, t, 0)>>, RSub(1, T(q(x, t, 0)))>>}
        \cup If(x > 0 /\ Nz(w, p(x - 1, 1)), <<"survival from a year younger", <<p(x - 1, t + 1), p(x - 1, 1)>>, RDiv(T(p(x - 1, t + 1)), T(p(x - 1, 1)))>>)
        \cup If(Nz(w, p(x + t, 1)), <<"survival of a year less", <<p(x, t + 1), p(x + t, 1)>>, RDiv(T(p(x, t + 1)), T(p(x + t, 1)))>>)
        \cup If(t > 1, <<"survival chain, first year", <<p(x, 1), p(x + 1, t - 1)>>, RMul(T(p(x, 1)), T(p(x + 1, t - 1)))>>)
        \cup If(t > 1, <<"survival chain, last year", <<p(x, t - 1), p(x + t - 1, 1)>>, RMul(T(p(x, t - 1)), T(p(x + t - 1, 1)))>>)
        \cup If(t = 1, <<"one-year pure endowment", <<Ex(x, 1, 1)>>, RDiv(T(Ex(x, 1, 1)), v(1))>>)
        \cup (IF t # 1 \/ x + 1 >= N(w) THEN {} ELSE
              {<<"annuity recursion", <<ax(x, n, 0, 1, 1), ax(x + 1, Minus(n, 1), 0, 1, 1)>>, RDiv(RSub(T(ax(x, n, 0, 1, 1)), 1), RMul(v(1), T(ax(x + 1, Minus(n, 1), 0, 1, 1))))>> : n \in {W, 2, 3, 4}}
              \cup {<<"insurance recursion", <<Ax(x, n, 0, e, 1, 1), Ax(x + 1, Minus(n, 1), 0, e, 1, 1)>>,
                      RDiv(RSub(v(1), T(Ax(x, n, 0, e, 1, 1))), RMul(v(1), RSub(1, T(Ax(x + 1, Minus(n, 1), 0, e, 1, 1)))))>> :
                    <<n, e>> \in {y \in {W, 2, 3} \X {0, 1} : (y[1] # W \/ y[2] = 0) /\ ~REq(T(Ax(x + 1, Minus(y[1], 1), 0, y[2], 1, 1)), 1)}})
    [] k[1] = "e" -> If(t = 1 /\ d = 1, <<"one-year curtate", <<p(x, 1)>>, T(p(x, 1))>>)
        \cup If(t > 1 /\ x + t < N(w), <<"temporary lifetime", <<ex(x, W, d), ex(x + t, W, d), p(x, t)>>, RSub(T(ex(x, W, d)), RMul(T(p(x, t)), T(ex(x + t, W, d))))>>)
        \cup {<<"lifetime, forward", <<ex(x - n, Plus(t, n), d), ex(x - n, n, d), p(x - n, n)>>, RDiv(RSub(T(ex(x - n, Plus(t, n), d)), T(ex(x - n, n, d))), T(p(x - n, n)))>>
               : n \in {j \in 1..3 : x - j >= 0 /\ Nz(w, p(x - j, j))}}
        \cup {<<"lifetime, backward", <<ex(x, n, d), ex(x + n, Minus(t, n), d), p(x, n)>>, RAdd(T(ex(x, n, d)), RMul(T(p(x, n)), T(ex(x + n, Minus(t, n), d))))>>
               : n \in {j \in 1..3 : x + j < N(w) /\ (t = W \/ j < t)}}
    [] k[1] = "E" -> {<<"pure endowment", <<p(x, t)>>, IF m = VAR THEN RMul(v(2 * t), RMul(T(p(x, t)), RSub(1, T(p(x, t))))) ELSE RMul(v(m * t), T(p(x, t)))>>}
        \cup If(m = 2, <<"moments of pure endowment", <<Ex(x, t, 1)>>, RMul(v(t), T(Ex(x, t, 1)))>>)
        \cup If(m # VAR, <<"endowment insurance minus term", <<Ax(x, t, 0, 1, m, 1), Ax(x, t, 0, 0, m, 1)>>, RSub(T(Ax(x, t, 0, 1, m, 1)), T(Ax(x, t, 0, 0, m, 1)))>>)
        \cup If(m # VAR /\ t > 1 /\ x + 1 < N(w), <<"pure endowment chain", <<Ex(x, 1, m), Ex(x + 1, t - 1, m)>>, RMul(T(Ex(x, 1, m)), T(Ex(x + 1, t - 1, m)))>>)
    [] k[1] = "A" /\ m = VAR -> {<<"variance", <<Ax(x, t, u, en, 1, d), Ax(x, t, u, en, 2, d)>>, RSub(T(Ax(x, t, u, en, 2, d)), RPow(T(Ax(x, t, u, en, 1, d)), 2))>>}
    [] k[1] = "A" /\ u > 0 ->
        If(d = 1 /\ x + 1 < N(w), <<"deferred insurance, backward", <<Ax(x + 1, t, u - 1, 0, m, 1), Ex(x, 1, m)>>, RMul(T(Ex(x, 1, m)), T(Ax(x + 1, t, u - 1, 0, m, 1)))>>)
        \cup If(d = 1 /\ x > 0 /\ Nz(w, Ex(x - 1, 1, m)), <<"deferred insurance, forward", <<Ax(x - 1, t, u + 1, 0, m, 1), Ex(x - 1, 1, m)>>, RDiv(T(Ax(x - 1, t, u + 1, 0, m, 1)), T(Ex(x - 1, 1, m)))>>)
        \cup If(x + u < N(w), <<"deferred insurance", <<Ax(x + u, t, 0, 0, m, d), Ex(x, u, m)>>, RMul(T(Ex(x, u, m)), T(Ax(x + u, t, 0, 0, m, d)))>>)
    [] k[1] = "A" ->
        If(en > 0, <<"term plus pure endowment", <<Ax(x, t, 0, 0, m, d), Ex(x, t, m)>>, RAdd(T(Ax(x, t, 0, 0, m, d)), RMul(RPow(R(en), m), T(Ex(x, t, m))))>>)
        \cup If(en = 0 /\ t # W, <<"endowment insurance minus pure", <<Ax(x, t, 0, 1, m, d), Ex(x, t, m)>>, RSub(T(Ax(x, t, 0, 1, m, d)), T(Ex(x, t, m)))>>)
        \cup If(en = 0 /\ t # W /\ x + t < N(w), <<"whole life difference", <<Ax(x, W, 0, 0, m, d), Ax(x + t, W, 0, 0, m, d), Ex(x, t, m)>>, RSub(T(Ax(x, W, 0, 0, m, d)), RMul(T(Ex(x, t, m)), T(Ax(x + t, W, 0, 0, m, d))))>>)
        \cup If(t = 1 /\ d = 1, <<"one-year insurance", <<p(x, 1)>>, RMul(v(m), RAdd(RSub(1, T(p(x, 1))), RMul(RPow(R(en), m), T(p(x, 1)))))>>)
        \cup If(t # 1 /\ d = 1 /\ x + 1 < N(w), <<"insurance, backward", <<Ax(x + 1, Minus(t, 1), 0, en, m, 1), p(x, 1)>>, RMul(v(m), RAdd(RSub(1, T(p(x, 1))), RMul(T(p(x, 1)), T(Ax(x + 1, Minus(t, 1), 0, en, m, 1)))))>>)
        \cup If(d = 1 /\ x > 0 /\ Nz(w, p(x - 1, 1)), <<"insurance, forward", <<Ax(x - 1, Plus(t, 1), 0, en, m, 1), p(x - 1, 1)>>,
               RDiv(RSub(RDiv(T(Ax(x - 1, Plus(t, 1), 0, en, m, 1)), v(m)), RSub(1, T(p(x - 1, 1)))), T(p(x - 1, 1)))>>)
        \cup If(m = 1 /\ ~NoInt(w) /\ ((t = W /\ en = 0) \/ (t # W /\ en = 1)), <<"annuity twin", <<ax(x, t, 0, 1, d)>>, RSub(1, RMul(IF d = 1 THEN DD(w) ELSE Delta[w], T(ax(x, t, 0, 1, d))))>>)
    [] k[1] = "a" /\ m = VAR ->
        LET en1 == IF t = W THEN 0 ELSE 1 r == IF d = 1 THEN DD(w) ELSE Delta[w]
        IN If(~NoInt(w), <<"annuity variance", <<Ax(x, t, 0, en1, 1, d), Ax(x, t, 0, en1, 2, d)>>, RDiv(RSub(T(Ax(x, t, 0, en1, 2, d)), RPow(T(Ax(x, t, 0, en1, 1, d)), 2)), RPow(r, 2))>>)
    [] k[1] = "a" /\ u > 0 ->
        If(x + 1 < N(w), <<"deferred annuity, backward", <<ax(x + 1, t, u - 1, 1, d), Ex(x, 1, 1)>>, RMul(T(Ex(x, 1, 1)), T(ax(x + 1, t, u - 1, 1, d)))>>)
        \cup If(x > 0 /\ Nz(w, Ex(x - 1, 1, 1)), <<"deferred annuity, forward", <<ax(x - 1, t, u + 1, 1, d), Ex(x - 1, 1, 1)>>, RDiv(T(ax(x - 1, t, u + 1, 1, d)), T(Ex(x - 1, 1, 1)))>>)
        \cup {<<"deferred annuity, difference", <<ax(x, Plus(t, u), 0, 1, d), ax(x, u, 0, 1, d)>>, RSub(T(ax(x, Plus(t, u), 0, 1, d)), T(ax(x, u, 0, 1, d)))>>}
        \cup If(x + u < N(w), <<"deferred annuity", <<ax(x + u, t, 0, 1, d), Ex(x, u, 1)>>, RMul(T(Ex(x, u, 1)), T(ax(x + u, t, 0, 1, d)))>>)
    [] k[1] = "a" ->
        If(d = 1 /\ x + 1 < N(w) /\ t # 1, <<"annuity, backward", <<ax(x + 1, Minus(t, 1), 0, 1, 1), Ex(x, 1, 1)>>, RAdd(1, RMul(T(Ex(x, 1, 1)), T(ax(x + 1, Minus(t, 1), 0, 1, 1))))>>)
        \cup If(d = 1 /\ x > 0 /\ Nz(w, Ex(x - 1, 1, 1)), <<"annuity, forward", <<ax(x - 1, Plus(t, 1), 0, 1, 1), Ex(x - 1, 1, 1)>>, RDiv(RSub(T(ax(x - 1, Plus(t, 1), 0, 1, 1)), 1), T(Ex(x - 1, 1, 1)))>>)
        \cup If(~NoInt(w), <<"insurance twin", <<Ax(x, t, 0, IF t = W THEN 0 ELSE 1, 1, d)>>, RDiv(RSub(1, T(Ax(x, t, 0, IF t = W THEN 0 ELSE 1, 1, d))), IF d = 1 THEN DD(w) ELSE Delta[w])>>)
        \cup If(t # W /\ x + t < N(w), <<"whole life annuity difference", <<ax(x, W, 0, 1, d), ax(x + t, W, 0, 1, d), Ex(x, t, 1)>>, RSub(T(ax(x, W, 0, 1, d)), RMul(T(Ex(x, t, 1)), T(ax(x + t, W, 0, 1, d))))>>)
    [] k[1] = "I" -> LET n == t + d IN
        If(t # W, <<"varying insurance identity", <<Ax(x, t, 0, 0, 1, d), DA(x, t, d)>>, RSub(RMul(n, T(Ax(x, t, 0, 0, 1, d))), T(DA(x, t, d)))>>)
        \cup If(d = 1 /\ x + 1 < N(w) /\ t # 1, <<"increasing insurance, backward", <<Ax(x, t, 0, 0, 1, 1), IA(x + 1, Minus(t, 1), 1), p(x, 1)>>,
               RAdd(T(Ax(x, t, 0, 0, 1, 1)), RMul(RMul(v(1), T(p(x, 1))), T(IA(x + 1, Minus(t, 1), 1))))>>)
    [] k[1] = "D" -> LET n == t + d IN
        {<<"varying insurance identity", <<Ax(x, t, 0, 0, 1, d), IA(x, t, d)>>, RSub(RMul(n, T(Ax(x, t, 0, 0, 1, d))), T(IA(x, t, d)))>>}
        \cup If(d = 1 /\ x + 1 < N(w), <<"decreasing insurance, backward", <<DA(x + 1, t - 1, 1), p(x, 1)>>, RMul(v(1), RAdd(RMul(t, RSub(1, T(p(x, 1)))), RMul(T(p(x, 1)), TVal(w, DA(x + 1, t - 1, 1)))))>>)
Ran(s) == {s[j] : j \in DOMAIN s}
Need(r) == {y \in Ran(r[2]) : ~Trivial(y)}
Usable(w, r) == \A y \in Need(r) : y \in KeySet[w]
(* <<name, what has to be known, all premises>> of the rules that apply *)
RulesOf == Mat([w \in Indices |-> Mat([k \in KeySet[w] |-> {<<r[1], Need(r), Ran(r[2])>> : r \in {y \in Rules(w, k) : Usable(w, y)}}])])
KeySeq == Mat([w \in Indices |-> SetToSeq(KeySet[w])])
(*----------------------------------------------------------- derivations *)
WName == "R" \o ToString(wi)
Depth3 == 3
Noise(w, g, fs) == {KeySeq[w][1 + H(<<w, g, fs, "noise", j>>, Len(KeySeq[w]))] : j \in 1..6}
Pick(k, m) == H(<<wi, goal, "pick", k>>, m) = 0
World(w) == Emit([world |-> "R" \o ToString(w), kind |-> "recursion", x0 |-> X0(w), i |-> RStr(II(w)), keys |-> {k \o <<RStr(Truth[w][k])>> : k \in KeySet[w]}])
Init == /\ wi \in Indices /\ goal \in KeySet[wi] /\ facts = {<<goal, 0>>} /\ height = 0 /\ claim = TRUE /\ via = <<>> /\ obs = NoQuery
        /\ (goal = q(0, 1, 0) => World(wi))
Run == obs = NoQuery
(* relations which are used for what is asked, but not in between *)
Outer == {"variance", "annuity variance", "annuity twin", "insurance twin", "whole life difference", "whole life annuity difference",
          "deferred insurance", "deferred annuity", "deferred annuity, difference"}
(* relations of which there are many instances: fewer of them are taken *)
Many == {"annuity recursion", "insurance recursion"}
Expand == Run /\ height < (2 + Thorough)
  /\ \E f \in facts : \E r \in RulesOf[wi][f[1]] :
       /\ goal \notin r[3]
       /\ (r[2] \cap {g[1] : g \in facts} = {})
       /\ (height = 0 \/ H(<<wi, goal, facts, f, r[1], r[2], "deeper">>, IF r[1] \in Many THEN 30 ELSE 3) = 0)
       /\ facts' = (facts \ {f}) \cup {<<y, f[2] + 1>> : y \in r[2]}
       /\ height' = (IF f[2] + 1 > height THEN f[2] + 1 ELSE height)
       /\ via' = Append(via, r[1])
       /\ claim' = (claim /\ (height = 0 \/ (r[1] \notin Outer /\ f[1][1] # "q")))
  /\ UNCHANGED <<wi, goal, obs>>
Fs == {f[1] : f \in facts}
Row(c, fs, depth) == Emit([w |-> WName, k |-> c, c |-> "rec_ask", a |-> [facts |-> fs, goal |-> IF c = "sound" THEN <<>> ELSE goal, depth |-> depth, h |-> height, via |-> via, salt |-> H(<<wi, goal, facts, c>>, 100000)], e |-> "=ok", tol |-> "x"])
Complete == Run /\ height <= 1 /\ (height = 1 \/ goal[2] = 0 \/ Pick("direct", 5)) /\ obs' = <<"complete">> /\ UNCHANGED <<wi, goal, facts, height, claim, via>>
  /\ Row("complete", Fs, IF H(<<wi, goal, facts, "d1">>, 3) = 0 THEN 1 ELSE Depth3)
Deeper == Run /\ height = 2 /\ claim /\ obs' = <<"deeper">> /\ UNCHANGED <<wi, goal, facts, height, claim, via>> /\ Row("deeper", Fs, Depth3)
Sound == Run /\ height >= 1 /\ (H(<<wi, goal, facts, "sound">>, 5 - (3 * Thorough)) = 0) /\ obs' = <<"sound">> /\ UNCHANGED <<wi, goal, facts, height, claim, via>>
  /\ Row("sound", Fs \cup Noise(wi, goal, facts), 1 + H(<<wi, goal, facts, "d">>, Depth3))
Next == Expand \/ Complete \/ Deeper \/ Sound
---------------------------------------------------------------------------
(* every relation gives the true value of its conclusion *)
Inv_Rules == height = 0 => \A r \in Rules(wi, goal) : Usable(wi, r) => RNear(r[3], Truth[wi][goal])
(* survival probabilities are decreasing, and so on: the true lives are lives *)
Inv_Life == LET x == goal[2] IN /\ \A j \in 0..3 : RLe(S(wi, x, j + 1), S(wi, x, j)) /\ REq(S(wi, x, N(wi) - x), 0)
   /\ REq(RAdd(Val(wi, Ax(x, W, 0, 0, 1, 1)), RMul(DD(wi), Val(wi, ax(x, W, 0, 1, 1)))), 1)
   /\ (~NoInt(wi) => RNear(RAdd(Val(wi, Ax(x, W, 0, 0, 1, 0)), RMul(Delta[wi], Val(wi, ax(x, W, 0, 1, 0)))), 1))
Inv_Facts == \A f \in facts : f[1] \in KeySet[wi] /\ f[2] <= height
=============================================================================
