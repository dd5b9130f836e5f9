-------------------------------- MODULE Q29 --------------------------------
(***************************************************************************)
(* P29: numerical helpers.  Two machines.                                  *)
(* Terms: a life aged x whose cover starts after u years and runs t years  *)
(* (or for life) is followed year by year until the cover or the oldest    *)
(* age of the life table ends it; the years counted are what max_term      *)
(* returns.  Functions: a polynomial is built a coefficient at a time with *)
(* its derivative and antiderivative; integral, derivative and solve must  *)
(* return the values known exactly for it.                                 *)
(***************************************************************************)
EXTENDS Rat, Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS NoQuery
VARIABLES mode, q, k, co, obs
vars == <<mode, q, k, co, obs>>
Seed == Param("seed", 1)
Thorough == Param("thorough", 0)
H(a, m) == Hash(<<Seed, a>>, m)
WHOLE == -999
Run == obs = NoQuery
Row(c, a, v, tol, sc) == Emit([c |-> c, k |-> "num", a |-> a, e |-> v, tol |-> tol, sc |-> sc])
(*-------------------------------------------------------------------------*)
Olds == {100, 60, 117}
TermQ == {[old |-> o, x |-> x, u |-> u, t |-> t] : o \in Olds, x \in {0, 20, 59, 60}, u \in {0, 1, 7, 40}, t \in {0, 1, 5, 39, 40, 41, 77, 100, 200, WHOLE}}
CurAge == q.x + q.u + k
Ended == (q.t # WHOLE /\ k >= q.t) \/ CurAge >= q.old
TickT == Run /\ mode = "term" /\ ~Ended /\ k' = k + 1 /\ UNCHANGED <<mode, q, co, obs>>
AskT == Run /\ mode = "term" /\ Ended /\ obs' = <<"max_term">> /\ UNCHANGED <<mode, q, k, co>>
  /\ Row("num_max_term", [old |-> q.old, x |-> q.x, t |-> q.t, u |-> q.u], k, "x", 1)
  /\ (IF q.u = 0 THEN Row("num_max_term", [old |-> q.old, x |-> q.x, t |-> q.t], k, "x", 1) ELSE TRUE)
AskAdd == Run /\ mode = "term" /\ k = 0 /\ q.x = 0 /\ q.old = 100 /\ obs' = <<"add_term">> /\ UNCHANGED <<mode, q, k, co>>
  /\ Row("num_add_term", [t |-> q.t, n |-> q.u], IF q.t = WHOLE THEN WHOLE ELSE q.t + q.u, "x", 1)
  /\ Row("num_add_term", [t |-> q.u, n |-> q.t], IF q.t = WHOLE THEN WHOLE ELSE q.t + q.u, "x", 1)
  /\ Row("num_add_term", [t |-> WHOLE, n |-> q.t], WHOLE, "x", 1)
(*--------------------------------------------------------- polynomials *)
Coefs == {"0", "1", "-2", Q(3, 2)} \cup {Q(H(<<"c", j>>, 400) - 200, 40) : j \in 1..(1 + Thorough)}
MaxDeg == 3
Eval(c, x) == RSum([j \in 1..Len(c) |-> RMul(c[j], RPow(x, j - 1))])
Diff(c) == IF Len(c) <= 1 THEN <<"0">> ELSE [j \in 1..(Len(c) - 1) |-> RMul(c[j + 1], j)]
Anti(c) == [j \in 1..(Len(c) + 1) |-> IF j = 1 THEN "0" ELSE RDiv(c[j - 1], j - 1)]
Integral(c, a, b) == RSub(Eval(Anti(c), b), Eval(Anti(c), a))
Pts == {"0", "1", "-3", Q(5, 2), "12"}
Abs(r) == RMax(r, RNeg(r))
Size(c, x) == RStr(RAdd(1, RSum([j \in 1..Len(c) |-> RMul(Abs(c[j]), RPow(RAdd(Abs(x), 9), j - 1))])))   \* the derivative looks around x
TickP == Run /\ mode = "poly" /\ Len(co) <= MaxDeg /\ \E c \in Coefs : co' = Append(co, c) /\ UNCHANGED <<mode, q, k, obs>>
Str(c) == [j \in 1..Len(c) |-> RStr(c[j])]
AskP == Run /\ mode = "poly" /\ Len(co) > 0 /\ obs' = <<"poly">> /\ UNCHANGED <<mode, q, k, co>>
  /\ \A x \in Pts : Row("num_derivative", [poly |-> Str(co), x |-> RStr(x)], RStr(Eval(Diff(co), x)), "1e-8", Size(co, x))
  /\ \A a \in Pts, b \in Pts : ((REq(a, 0) \/ RLt(a, b))
        => Row("num_integral", [poly |-> Str(co), lower |-> RStr(a), upper |-> RStr(b)], RStr(Integral(co, a, b)), "1e-9", Size(Append(co, "1"), RMax(Abs(a), Abs(b)))))
(* exponential decay: integrals to infinity, derivatives of transcendental functions *)
AskExp == Run /\ mode = "poly" /\ Len(co) = 0 /\ obs' = <<"exp">> /\ UNCHANGED <<mode, q, k, co>>
  /\ \A f \in {Q(1, 20), Q(1, 2), "2"}, a \in {"0", "1", Q(7, 2)} :
       /\ Row("num_integral", [exp |-> RStr(RNeg(f)), lower |-> RStr(a), upper |-> "inf"], RStr(RDiv(RExp(RNeg(RMul(f, a))), f)), "1e-7", 1)
       /\ Row("num_integral", [exp |-> RStr(RNeg(f)), lower |-> RStr(a), upper |-> RStr(RAdd(a, 4))],
              RStr(RDiv(RSub(RExp(RNeg(RMul(f, a))), RExp(RNeg(RMul(f, RAdd(a, 4))))), f)), "1e-9", 1)
       /\ (IF RLt(f, Q(1, 10)) THEN Row("num_derivative", [exp |-> RStr(RNeg(f)), x |-> RStr(a)], RStr(RNeg(RMul(f, RExp(RNeg(RMul(f, a)))))), "1e-6", 1) ELSE TRUE)
(* solve: an increasing function a + b x + c x^3, or b exp(f x), reaches a known target at root r only *)
Roots == {"0", Q(1, 20), "1", "-2", Q(61, 4), "100", Q(H("root", 4000) - 2000, 100)}
Incr == {[poly |-> <<a, b, "0", c>>] : a \in {"0", "-5", "120"}, b \in {"1", Q(1, 4), "-3"}, c \in {"0"}} \cup {[poly |-> <<a, b, "0", c>>] : a \in {"2"}, b \in {"1", "6"}, c \in {"0", Q(1, 10)}}
Val(f, x) == Eval(f.poly, x)
Ones(r) == {[grid |-> RStr(r)], [grid |-> RStr(RAdd(r, Q(7, 10)))], [grid |-> RStr(RSub(r, 3))]}
Lists(r) == {[grid |-> <<RStr(RSub(r, 2)), RStr(RAdd(r, 1))>>], [grid |-> <<RStr(RSub(r, Q(1, 2))), RStr(RAdd(r, 30))>>], [grid |-> <<RStr(RAdd(r, 4)), RStr(RSub(r, 5))>>]}
AskSolve == Run /\ mode = "solve" /\ obs' = <<"solve">> /\ UNCHANGED <<mode, q, k, co>>
  /\ (\A f \in Incr, r \in Roots :
       LET a == [poly |-> Str(f.poly), target |-> RStr(Val(f, r))] IN
         /\ (\A g \in Ones(r) : Row("num_solve", a @@ g, RStr(r), "1e-7", 1))
         /\ (\A g \in Lists(r) : Row("num_solve", a @@ g, RStr(r), "1e-7", 1) /\ Row("num_solve", a @@ g @@ [mad |-> TRUE], RStr(r), "1e-5", 1)))
  (* several roots: which one is found does not depend on the order of the guesses *)
  /\ (\A r1 \in {"0", "2", "-7"}, d \in {"3", "18", "45"}, g \in {<<0, 3, 1>>, <<0, 50, 5>>, <<20, 10, 60>>, <<25, 35, 2>>, <<1, 2, 16, 30>>} :
       LET r2 == RAdd(r1, d)  gs == Mat([j \in 1..Len(g) |-> RStr(RSub(RAdd(r1, g[j]), Q(1, 4)))]) IN
       Row("num_orders", [poly |-> Str(<<RMul(r1, r2), RNeg(RAdd(r1, r2)), "1">>), target |-> "0", grid |-> gs, roots |-> <<RStr(r1), RStr(r2)>>],
           [answers |-> 1, off |-> "0"], "1e-6", 1))
  (* rates: the yield of n payments of 1 bought at their value at rate r *)
  /\ (\A n \in {1, 5, 30}, r \in {Q(1, 50), Q(1, 10), Q(7, 20)} :
       Row("num_yield", [n |-> n, price |-> RStr(RSum([j \in 1..n |-> RPow(RAdd(1, r), 0 - j)])), grid |-> <<"0.01", "0.5">>], [root |-> RStr(r), left |-> RStr(r)], "1e-7", 1))
  /\ (\A d \in {"0", "0.0000005", "-0.0000009"} : Row("num_isclose", [r |-> d], TRUE, "x", 1))
  /\ (\A d \in {"0.00001", "-0.1", "5"} : Row("num_isclose", [r |-> d], FALSE, "x", 1))
  /\ Row("num_isclose", [r |-> "5.0000001", target |-> "5"], TRUE, "x", 1) /\ Row("num_isclose", [r |-> "5.01", target |-> "5", abs_tol |-> "0.1"], TRUE, "x", 1)
  /\ Row("num_isclose", [r |-> "5.01", target |-> "5"], FALSE, "x", 1)
Init == /\ obs = NoQuery /\ k = 0 /\ co = <<>>
        /\ \/ mode = "term" /\ q \in TermQ /\ q.x + q.u <= q.old
           \/ mode \in {"poly", "solve"} /\ q = [old |-> 0, x |-> 0, u |-> 0, t |-> 0]
Next == TickT \/ AskT \/ AskAdd \/ TickP \/ AskP \/ AskExp \/ AskSolve
---------------------------------------------------------------------------
Inv_Term == mode = "term" => k >= 0 /\ (q.t # WHOLE => k <= q.t) /\ CurAge <= q.old
Inv_Poly == mode = "poly" => (Len(co) > 0 => \A x \in Pts : REq(Eval(Diff(Anti(co)), x), Eval(co, x)))
Inv_Add == mode = "poly" => (Len(co) > 0 => REq(RAdd(Integral(co, "-3", "1"), Integral(co, "1", "12")), Integral(co, "-3", "12")))
Inv_Mono == mode = "solve" => \A f \in Incr, a \in Roots, b \in Roots : (~REq(a, b) => ~REq(Val(f, a), Val(f, b)))
=============================================================================
