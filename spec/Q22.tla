-------------------------------- MODULE Q22 --------------------------------
(***************************************************************************)
(* P22: the facts known to Recursion.  State: the facts held, each a value *)
(* per unit of benefit, and the history of calls that led there.  Giving a *)
(* fact holds it (replacing what was held), giving None forgets it, asking *)
(* changes nothing.  A fact is asked back for any benefit amount, any      *)
(* split of the age into age at selection and years since, and only for    *)
(* the very quantity that it is a fact of.  The facts are of lives so far  *)
(* apart in age that nothing can be derived from them.                     *)
(***************************************************************************)
EXTENDS Rat, Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS NoQuery
VARIABLES wi, held, hist, obs
vars == <<wi, held, hist, obs>>
Seed == Param("seed", 1)
Thorough == Param("thorough", 0)
H(k, m) == Hash(<<Seed, "store", k>>, m)
Indices == 1..(16 + (16 * Thorough))
MaxLen == 4 + Thorough
W == -1
VAR == -2
(* slots: what a fact can be of; r is endowment per unit of death benefit  *)
Sl(f, t, u, r, m, d) == [f |-> f, t |-> t, u |-> u, r |-> r, m |-> m, d |-> d]
SlotsOf(f) ==
  CASE f = "q" -> {Sl("q", t, u, "0", 1, 1) : t \in {1, 2, 5}, u \in {0, 1, 3}}
    [] f = "p" -> {Sl("p", t, 0, "0", 1, 1) : t \in {1, 2, 5, 6}}
    [] f = "e" -> {Sl("e", t, 0, "0", m, d) : t \in {W, 1, 4, 5}, m \in {1, 2}, d \in {0, 1}}
    [] f = "E" -> {Sl("E", t, 0, "0", m, 1) : t \in {1, 2, 5}, m \in {1, 2, VAR}}
    [] f = "A" -> {Sl("A", t, u, "0", m, d) : t \in {W, 1, 4}, u \in {0, 2}, m \in {1, 2, VAR}, d \in {0, 1}}
                  \cup {Sl("A", t, 0, r, m, d) : t \in {2, 4}, r \in {"1", "2", "1/2", "3/2"}, m \in {1, 2, VAR}, d \in {0, 1}}
    [] f = "a" -> {Sl("a", t, u, "0", 1, d) : t \in {W, 2, 4}, u \in {0, 2}, d \in {0, 1}} \cup {Sl("a", t, 0, "0", VAR, d) : t \in {W, 2, 4}, d \in {0, 1}}
    [] f = "I" -> {Sl("I", t, 0, "0", 1, d) : t \in {W, 2, 4}, d \in {0, 1}}
    [] f = "D" -> {Sl("D", t, 0, "0", 1, d) : t \in {2, 4, 5}, d \in {0, 1}}
Kinds == <<"A", "q", "E", "a", "e", "A", "I", "D", "p">>
KindOf(w) == Kinds[1 + (w % 9)]
All == Mat([f \in {Kinds[j] : j \in 1..9} |-> SetToSeq(SlotsOf(f))])
Draw(f, k) == All[f][1 + H(k, Len(All[f]))]
(* the slots that facts are given of: three of a kind, and one of another  *)
Slots == Mat([w \in Indices |-> {Draw(KindOf(w), <<w, j>>) : j \in 1..3} \cup {Draw(KindOf(w + 1), <<w, 4>>)}])
Asked == Mat([w \in Indices |-> Slots[w] \cup {Draw(KindOf(w), <<w, "near", j>>) : j \in 1..8} \cup {Draw(KindOf(w + 1), <<w, "near", j>>) : j \in 1..2}])
Age(w, f) == 20 + H(<<w, "age">>, 20) + (IF f = KindOf(w) THEN 0 ELSE 40)
(* a value that has to be found without a fact of it: not claimed absent   *)
Derived(s) == \/ s.u > 0 /\ s.f \in {"q", "a"}
              \/ s.m = VAR /\ s.f = "A"
              \/ s.m # 1 /\ s.f = "E"
              \/ s.f = "a" /\ s.t = 1
              \/ s.f = "A" /\ s.t = 1 /\ s.r = "1"
(*------------------------------------------------ calls, as they are made *)
Amounts == <<"1", "1", "2", "1000", "1/2", "250">>
B(k) == Amounts[1 + H(<<k, "b">>, 6)]
Power(s) == IF s.f \in {"I", "D"} THEN 1 ELSE IF s.m = VAR THEN 2 ELSE s.m
Scaled(s, b, val) == IF s.f \in {"q", "p", "e"} THEN val ELSE RMul(val, RPow(b, Power(s)))
(* arguments, those equal to the defaults sometimes left out; a pure       *)
(* endowment is also an insurance without death benefit                    *)
Opt(k, name, val, default) == IF val = default /\ H(<<k, name>>, 2) = 0 THEN <<>> ELSE name :> val
Years(k) == IF H(<<k, "s?">>, 2) = 0 THEN 0 ELSE H(<<k, "s">>, 6)
AgeArgs(w, s, k) == ("x" :> (Age(w, s.f) - Years(k))) @@ Opt(k, "s", Years(k), 0)
PureAsA(s, k) == s.f = "E" /\ H(<<k, "pure">>, 3) = 0
SetArgs(w, s, b, k) ==
  AgeArgs(w, s, k) @@
  CASE s.f = "q" -> Opt(k, "t", s.t, 1) @@ Opt(k, "u", s.u, 0)
    [] s.f = "p" -> Opt(k, "t", s.t, 1)
    [] s.f = "e" -> Opt(k, "t", s.t, W) @@ Opt(k, "curtate", s.d = 1, FALSE) @@ Opt(k, "moment", s.m, 1)
    [] s.f = "E" -> IF PureAsA(s, k) THEN ("t" :> s.t) @@ ("b" :> 0) @@ ("endowment" :> b) @@ Opt(k, "moment", s.m, 1)
                    ELSE Opt(k, "t", s.t, 1) @@ Opt(k, "endowment", b, "1") @@ Opt(k, "moment", s.m, 1)
    [] s.f = "A" -> Opt(k, "t", s.t, W) @@ Opt(k, "u", s.u, 0) @@ Opt(k, "b", b, "1") @@ Opt(k, "moment", s.m, 1) @@ Opt(k, "discrete", s.d = 1, TRUE)
                    @@ (IF s.r = "1" /\ H(<<k, "equal">>, 2) = 0 THEN "endowment" :> -1 ELSE Opt(k, "endowment", RMul(s.r, b), "0"))
    [] s.f = "a" -> Opt(k, "t", s.t, W) @@ Opt(k, "u", s.u, 0) @@ Opt(k, "b", b, "1") @@ Opt(k, "variance", s.m = VAR, FALSE) @@ Opt(k, "discrete", s.d = 1, TRUE)
    [] s.f = "I" -> Opt(k, "t", s.t, W) @@ Opt(k, "b", b, "1") @@ Opt(k, "discrete", s.d = 1, TRUE)
    [] s.f = "D" -> ("t" :> s.t) @@ Opt(k, "b", b, "1") @@ Opt(k, "discrete", s.d = 1, TRUE)
SetName(s, k) == CASE s.f = "I" -> "set_IA" [] s.f = "D" -> "set_DA" [] PureAsA(s, k) -> "set_A" [] OTHER -> "set_" \o s.f
AskName(s) ==
  CASE s.f \in {"q", "p", "e", "E"} -> s.f \o "_x"
    [] s.f = "A" -> (IF s.u > 0 THEN "deferred_insurance" ELSE IF s.r # "0" THEN "endowment_insurance" ELSE IF s.t = W THEN "whole_life_insurance" ELSE "term_insurance")
    [] s.f = "a" -> (IF s.u > 0 THEN "deferred_annuity" ELSE IF s.t = W THEN "whole_life_annuity" ELSE "temporary_annuity")
    [] s.f = "I" -> "increasing_insurance" [] s.f = "D" -> "decreasing_insurance"
AskArgs(w, s, b, k) ==
  AgeArgs(w, s, k) @@
  CASE s.f \in {"q", "p", "e"} -> SetArgs(w, s, b, k)
    [] s.f = "E" -> Opt(k, "t", s.t, 1) @@ Opt(k, "endowment", b, "1") @@ Opt(k, "moment", s.m, 1)
    [] s.f = "A" -> Opt(k, "b", b, "1") @@ Opt(k, "moment", s.m, 1) @@ Opt(k, "discrete", s.d = 1, TRUE)
                    @@ (IF s.u > 0 THEN Opt(k, "t", s.t, W) @@ ("u" :> s.u) ELSE IF s.t = W THEN <<>> ELSE "t" :> s.t)
                    @@ (IF s.r = "0" THEN <<>> ELSE IF s.r = "1" /\ H(<<k, "equal">>, 2) = 0 THEN <<>> ELSE "endowment" :> RMul(s.r, b))
    [] s.f = "a" -> Opt(k, "b", b, "1") @@ Opt(k, "discrete", s.d = 1, TRUE) @@ (IF s.u > 0 THEN Opt(k, "t", s.t, W) @@ ("u" :> s.u) ELSE
                    Opt(k, "variance", s.m = VAR, FALSE) @@ (IF s.t = W THEN <<>> ELSE "t" :> s.t))
    [] s.f \in {"I", "D"} -> SetArgs(w, s, b, k)
Absent == "absent"
Call(w, h, s, b, k) == [call |-> AskName(s), args |-> AskArgs(w, s, b, k), exp |-> IF h[s] = Absent THEN (IF Derived(s) THEN "any" ELSE "none") ELSE RStr(Scaled(s, b, h[s]))]
(* questions over no time at all, whatever facts of other terms are held   *)
None(w, f, b, k) ==
  LET m == 1 + H(<<k, f, "m">>, 2)
      A0 == ("x" :> Age(w, f)) @@ ("t" :> 0)
      c(name, a, e) == [call |-> name, args |-> a @@ A0, exp |-> RStr(e)]
  IN CASE f = "q" -> {c("q_x", <<>>, R(0)), c("q_x", "u" :> H(<<k, "u">>, 4), R(0))}
       [] f = "p" -> {c("p_x", <<>>, R(1))}
       [] f = "E" -> {c("E_x", ("endowment" :> b) @@ ("moment" :> m), RPow(b, m))}
       [] f = "A" -> {c("term_insurance", ("b" :> b) @@ ("moment" :> m), R(0)), c("endowment_insurance", ("b" :> b) @@ ("moment" :> m), RPow(b, m)),
                      c("endowment_insurance", ("b" :> b) @@ ("endowment" :> RMul(b, Q(3, 2))) @@ ("moment" :> m), RPow(RMul(b, Q(3, 2)), m))}
       [] f = "a" -> {c("temporary_annuity", "b" :> b, R(0))}
       [] f = "I" -> {c("increasing_insurance", "b" :> b, R(0))}
       [] f = "D" -> {c("decreasing_insurance", "b" :> b, R(0))}
       [] f = "e" -> {}
(*------------------------------------------------------------ the machine *)
Init == /\ wi \in Indices /\ held = [s \in Slots[wi] |-> Absent] /\ hist = <<>> /\ obs = NoQuery
Run == obs = NoQuery
Keep(op) == Len(hist) < 2 \/ H(<<wi, hist, op, "keep">>, 6) = 0
Key == <<wi, hist>>
Give(s) == /\ Keep(<<s, "give">>)
           /\ LET k == <<Key, s, "give">> b == B(k) val == Q(1 + H(<<k, "v">>, 998), 1000)
              IN /\ held' = [held EXCEPT ![s] = val]
                 /\ hist' = Append(hist, [call |-> SetName(s, k), args |-> ("val" :> RStr(Scaled(s, b, val))) @@ SetArgs(wi, s, b, k), exp |-> "self", of |-> s, b |-> b])
Forget(s) == /\ Keep(<<s, "forget">>)
             /\ LET k == <<Key, s, "forget">> b == B(k)
                IN /\ held' = [held EXCEPT ![s] = Absent]
                   /\ hist' = Append(hist, [call |-> SetName(s, k), args |-> ("val" :> "None") @@ SetArgs(wi, s, b, k), exp |-> "self", of |-> s, b |-> b])
Ask(s) == /\ Keep(<<s, "ask">>)
          /\ LET k == <<Key, s, "ask">> IN hist' = Append(hist, Call(wi, held, s, B(k), k)) /\ UNCHANGED held
Step == Run /\ Len(hist) < MaxLen /\ \E s \in Slots[wi] : (Give(s) \/ Forget(s) \/ Ask(s)) /\ UNCHANGED <<wi, obs>>
Report == Run /\ obs' = <<"all">> /\ UNCHANGED <<wi, held, hist>>
  /\ LET h == [s \in Asked[wi] |-> IF s \in Slots[wi] THEN held[s] ELSE Absent]
         asks == SetToSeq(Asked[wi])
         none == SetToSeq(UNION {None(wi, f, B(<<Key, f>>), Key) : f \in {KindOf(wi), KindOf(wi + 1)}})
     IN Emit([w |-> "S" \o ToString(wi), k |-> "store", c |-> "rec_store", a |-> [depth |-> IF H(<<Key, "depth">>, 6) = 0 THEN 3 ELSE 1,
               ops |-> hist, asks |-> [j \in 1..Len(asks) |-> Call(wi, h, asks[j], B(<<Key, j>>), <<Key, j, "all">>)] \o none], e |-> "=ok", tol |-> "x"])
Next == Step \/ Report
---------------------------------------------------------------------------
(* what is held is what was given last, unless forgotten since *)
Calls(s) == {j \in 1..Len(hist) : hist[j].exp = "self" /\ hist[j].of = s}
Inv_Held == \A s \in Slots[wi] : LET c == Calls(s) IN
  IF c = {} THEN held[s] = Absent
  ELSE LET j == CHOOSE j \in c : \A l \in c : l <= j
       IN IF hist[j].args["val"] = "None" THEN held[s] = Absent ELSE held[s] # Absent /\ RStr(Scaled(s, hist[j].b, held[s])) = hist[j].args["val"]
Inv_Scale == \A s \in Slots[wi] : held[s] # Absent => \A b \in {"2", "1/2"} : REq(Scaled(s, RMul(b, b), held[s]), Scaled(s, b, Scaled(s, b, held[s])))
=============================================================================
