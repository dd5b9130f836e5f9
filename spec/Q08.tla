-------------------------------- MODULE Q08 --------------------------------
(***************************************************************************)
(* P08: select and ultimate tables.  A table has a row for each age of     *)
(* selection and a column for each year since selection; after the select  *)
(* period a life goes down the last (ultimate) column.  State: what is     *)
(* known of a true table - a set of cells <<column kind, row, duration>> - *)
(* which Learn extends by one round of the recursions that relate a cell   *)
(* to the next one a life moves to.  When nothing more can be learned, and *)
(* not before, lives [x]+s are followed through the table year by year and *)
(* their probabilities and values asked.                                   *)
(***************************************************************************)
EXTENDS Rat, Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS Indices, NoQuery
VARIABLES wi, pat, style, known, settled, cell, n, surv, ev, dv, obs
vars == <<wi, pat, style, known, settled, cell, n, surv, ev, dv, obs>>
Seed == Param("seed", 1)
Thorough == Param("thorough", 0)
H(k, m) == Hash(<<Seed, "sel", k>>, m)
(*-------------------------------------------------------- the true tables *)
X0(w) == IF w = 1 THEN 60 ELSE 30 + H(<<w, "x0">>, 40)
Per(w) == CASE w = 1 -> 2 [] w = 2 -> 0 [] w = 3 -> 1 [] w = 4 -> 3 [] OTHER -> H(<<w, "per">>, 4)
Rows(w) == CASE w = 1 -> 4 [] w = 2 -> 6 [] OTHER -> 3 + H(<<w, "rows">>, 3)
Closed(w) == w \in {1, 3} \/ (w > 4 /\ H(<<w, "closed">>, 2) = 0)
I(w) == IF w = 1 THEN Q(1, 20) ELSE Q(5 + H(<<w, "i">>, 120), 1000)
V(w) == RDiv(1, RAdd(1, I(w)))
D(w) == RMul(I(w), V(w))
Cells(w) == (1..Rows(w)) \X (0..Per(w))
Out == <<99, 99>>
To(w, c) == IF c[2] < Per(w) THEN <<c[1], c[2] + 1>> ELSE IF c[1] < Rows(w) THEN <<c[1] + 1, c[2]>> ELSE Out
(* cells a life can come from in a year *)
From(w, c) == {e \in Cells(w) : To(w, e) = c}
QTrue(w, c) == IF Closed(w) /\ c = <<Rows(w), Per(w)>> THEN "1"
               ELSE IF w > 4 /\ H(<<w, "q0", c>>, 12) = 0 THEN "0"          \* nobody dies that year
               ELSE Q(10 + 15 * c[1] + 20 * c[2] + H(<<w, "q", c>>, 250), 1000)
Scale(w) == R(1000 + H(<<w, "scale">>, 90000))
RECURSIVE LUp(_, _, _)
LUp(w, c, base) == IF c[2] < Per(w) THEN RDiv(LUp(w, <<c[1], c[2] + 1>>, base), RSub(1, QTrue(w, c)))
                   ELSE IF c[1] = 1 THEN base ELSE RMul(LUp(w, <<c[1] - 1, c[2]>>, base), RSub(1, QTrue(w, <<c[1] - 1, c[2]>>)))
RECURSIVE Back(_, _, _)
TailV(w, k) == IF Closed(w) THEN "0" ELSE CASE k = "e" -> Q(15 + H(<<w, "e">>, 60), 10) [] k = "A" -> Q(300 + H(<<w, "A">>, 300), 1000)
                                           [] k = "a" -> RDiv(RSub(1, Q(300 + H(<<w, "A">>, 300), 1000)), D(w))
Back(w, k, c) == IF c = Out THEN TailV(w, k)
  ELSE LET p == RSub(1, QTrue(w, c)) b == IF Closed(w) /\ To(w, c) = Out THEN "0" ELSE Back(w, k, To(w, c))
       IN CASE k = "e" -> RMul(p, RAdd(1, b))
            [] k = "A" -> RMul(V(w), RAdd(RSub(1, p), RMul(p, b)))
            [] k = "a" -> RAdd(1, RMul(V(w), RMul(p, b)))
Truth == Mat([w \in Indices |-> Mat([k \in {"q", "l", "d", "e", "A", "a"} |-> Mat([c \in Cells(w) |->
   CASE k = "q" -> QTrue(w, c) [] k = "l" -> LUp(w, c, Scale(w)) [] k = "d" -> RMul(LUp(w, c, Scale(w)), QTrue(w, c))
     [] OTHER -> Back(w, k, c)])])])
T(k, c) == Truth[wi][k][c]
(*---------------------------------------------------- what is given of it *)
Col(w, k, cs) == {<<k, c[1], c[2]>> : c \in cs}
Ult(w) == {c \in Cells(w) : c[2] = Per(w)}
SelC(w) == Cells(w) \ Ult(w)
Lst(w) == {<<Rows(w), Per(w)>>}
Some(w, k, m, r) == {c \in Cells(w) : H(<<w, k, c, r>>, m) = 0}
Given(w, p) ==
  CASE p = 1 -> Col(w, "q", Cells(w))
    [] p = 2 -> Col(w, "l", Cells(w))
    [] p = 3 -> Col(w, "q", Cells(w)) \cup (IF Closed(w) THEN {} ELSE Col(w, "A", Lst(w)) \cup Col(w, "a", Lst(w)) \cup Col(w, "e", Lst(w)))
    [] p = 4 -> Col(w, "q", SelC(w)) \cup Col(w, "a", Ult(w)) \cup Col(w, "A", Ult(w)) \cup Col(w, "e", Ult(w))
    [] p = 5 -> Col(w, "e", Cells(w)) \cup Col(w, "l", {<<1, 0>>})
    [] p = 6 -> Col(w, "l", {c \in Cells(w) : c[2] = 0}) \cup Col(w, "d", Cells(w))
    [] p = 7 -> Col(w, "A", Cells(w)) \cup Col(w, "a", Cells(w))
    [] p = 8 -> Col(w, "q", Cells(w)) \cup Col(w, "d", Lst(w)) \cup Col(w, "e", {<<1, 0>>}) \cup Col(w, "A", {<<1, 0>>}) \cup Col(w, "a", {<<1, 0>>})
    [] p = 9 -> Col(w, "q", Cells(w) \ Some(w, "q9", 3, p)) \cup Col(w, "e", Ult(w)) \cup Col(w, "d", Some(w, "d", 2, p))
    [] p = 10 -> Col(w, "q", SelC(w)) \cup Col(w, "l", Ult(w))
    [] OTHER -> Col(w, "q", Some(w, "q", 2, p)) \cup Col(w, "l", Some(w, "l", 4, p)) \cup Col(w, "d", Some(w, "d", 4, p))
                \cup Col(w, "e", Some(w, "e", 5, p)) \cup Col(w, "A", Some(w, "A", 5, p)) \cup Col(w, "a", Some(w, "a", 6, p))
Pats == 1..(12 + 8 * Thorough)
Styles == {"table", "selected", "actual"}      \* rows at once, or columns by age selected, or by actual age
GivenNow == Given(wi, pat)
(*------------------------------------------------- one round of learning *)
Kn(k, c) == <<k, c[1], c[2]>> \in known
In(c) == c # Out
Prob(c) == Kn("q", c)
RuleL(c) == \/ \E f \in From(wi, c) : Kn("l", f) /\ Kn("q", f)
            \/ In(To(wi, c)) /\ Kn("l", To(wi, c)) /\ Kn("q", c) /\ ~REq(T("q", c), 1)
            \/ Kn("d", c) /\ Kn("q", c) /\ ~REq(T("q", c), 0)
RuleD(c) == In(To(wi, c)) /\ Kn("l", c) /\ Kn("l", To(wi, c))
RuleQ(c) == \/ Kn("d", c) /\ Kn("l", c) /\ ~REq(T("l", c), 0)
            \/ In(To(wi, c)) /\ Kn("e", c) /\ Kn("e", To(wi, c))
RuleB(k, c) == \/ In(To(wi, c)) /\ Kn("q", c) /\ Kn(k, To(wi, c))
               \/ \E f \in From(wi, c) : Kn(k, f) /\ Kn("q", f) /\ ~REq(T("q", f), 1)
Learned == known \cup Col(wi, "l", {c \in Cells(wi) : RuleL(c)}) \cup Col(wi, "d", {c \in Cells(wi) : RuleD(c)}) \cup Col(wi, "q", {c \in Cells(wi) : RuleQ(c)})
   \cup UNION {Col(wi, k, {c \in Cells(wi) : RuleB(k, c)}) : k \in {"e", "A", "a"}}
(* numbers of lives have no scale until one is given or assumed *)
Scaled(K) == \E f \in K : f[1] \in {"l", "d"}
Radix == pat % 2 = 1
AssumedL == IF Radix THEN R(500 + 100 * pat) ELSE R(100000)
(* true numbers of lives at the scale in force *)
L1 == LUp(wi, <<1, 0>>, Scale(wi))
TV(k, c) == IF k \in {"l", "d"} /\ ~Scaled(GivenNow) THEN RMul(T(k, c), RDiv(AssumedL, L1)) ELSE T(k, c)
Run == obs = NoQuery
Str3(f) == <<f[1], f[2], f[3], RStr(TV(f[1], <<f[2], f[3]>>))>>
Hist == [x0 |-> X0(wi), rows |-> Rows(wi), per |-> Per(wi), i |-> RStr(I(wi)), style |-> style, order |-> H(<<wi, pat, style, "order">>, 1000),
         radix |-> IF Radix THEN RStr(AssumedL) ELSE "", given |-> {<<f[1], f[2], f[3], RStr(T(f[1], <<f[2], f[3]>>))>> : f \in GivenNow}]
Name == "ST" \o ToString(wi) \o "." \o ToString(pat) \o style
Init == /\ wi \in Indices /\ pat \in Pats /\ style \in Styles /\ (pat > 10 => H(<<wi, "style", pat>>, 3) = (CASE style = "table" -> 0 [] style = "actual" -> 1 [] OTHER -> 2))
        /\ known = Given(wi, pat) /\ known # {} /\ ((\E f \in known : f[2] = 1) = TRUE) /\ settled = FALSE
        /\ cell = Out /\ n = 0 /\ surv = "1" /\ ev = "0" /\ dv = "0" /\ obs = NoQuery
Still == UNCHANGED <<cell, n, surv, ev, dv>>
Learn == Run /\ ~settled /\ Learned # known /\ known' = Learned /\ UNCHANGED <<wi, pat, style, settled, obs>> /\ Still
(* the table's first row and column get the radix only when no number of lives or deaths is known *)
Assume == Run /\ ~settled /\ Learned = known /\ (Scaled(known) = FALSE) /\ known' = known \cup {<<"l", 1, 0>>} /\ UNCHANGED <<wi, pat, style, settled, obs>> /\ Still
Settle == Run /\ ~settled /\ Learned = known /\ (Scaled(known) = TRUE) /\ settled' = TRUE /\ Emit([world |-> Name, kind |-> "seltable", hist |-> Hist]) /\ UNCHANGED <<wi, pat, style, known, obs>> /\ Still
(*--------------------------------------------------- lives in the table *)
Path(c, m) == \* all cells of the first m years are known
  LET F[j \in 0..m] == IF j = 0 THEN c ELSE IF F[j - 1] = Out THEN Out ELSE To(wi, F[j - 1])
  IN \A j \in 0..(m - 1) : In(F[j]) /\ Kn("q", F[j])
RECURSIVE Whole(_)
Whole(c) == c # Out /\ Kn("q", c) /\ (IF To(wi, c) = Out THEN Closed(wi) ELSE Whole(To(wi, c)))
Start == Run /\ settled /\ cell = Out /\ n = 0 /\ cell' \in Cells(wi)
  /\ UNCHANGED <<wi, pat, style, known, settled, n, surv, ev, dv, obs>>
RECURSIVE AtN(_, _)
AtN(c, m) == IF m = 0 \/ c = Out THEN c ELSE AtN(To(wi, c), m - 1)
Now == AtN(cell, n)
Follow == Run /\ settled /\ cell # Out /\ Now # Out /\ Kn("q", Now) /\ n' = n + 1
  /\ surv' = RMul(surv, RSub(1, T("q", Now))) /\ ev' = RAdd(ev, RMul(surv, RSub(1, T("q", Now))))
  /\ dv' = RAdd(dv, RMul(RPow(V(wi), n + 1), RMul(surv, T("q", Now))))
  /\ UNCHANGED <<wi, pat, style, known, settled, cell, obs>>
(* dv: value of a benefit of 1 for deaths in the first n years *)
Ins == dv
Ann == RDiv(RSub(1, RAdd(Ins, RMul(RPow(V(wi), n), surv))), D(wi))      \* of n payments
(*------------------------------------------------------------- queries *)
Row(c, a, v, tol) == Emit([w |-> Name, k |-> "seltable", c |-> c, a |-> a, e |-> v, tol |-> tol])
Publish == Run /\ settled /\ cell = Out /\ obs' = <<"fill">> /\ UNCHANGED <<wi, pat, style, known, settled>> /\ Still
  /\ Row("selt_fill", [known |-> {<<f[1], f[2], f[3]>> : f \in known},
        truth |-> {Str3(f) : f \in {<<k, c[1], c[2]>> : k \in {"q", "l", "d", "e", "A", "a"}, c \in Cells(wi)}}], "=ok", "1e-7")
(* a life may be asked about from later in the ultimate column by counting on years from an earlier selection *)
AgeOf(c) == X0(wi) + c[1] - 1
Asks(c) == IF c[2] = Per(wi) THEN {<<AgeOf(c), c[2]>>} \cup (IF c[1] > 1 THEN {<<X0(wi), c[1] - 1 + Per(wi)>>} ELSE {}) ELSE {<<AgeOf(c), c[2]>>}
Call(f, a, v) == \A y \in Asks(cell) : Row("selt_call", [f |-> f, a |-> [x |-> y[1], s |-> y[2]] @@ a], RStr(v), "1e-7")
IsEnd == REq(surv, 0)
AtTail == Now = Out /\ ~IsEnd         \* values beyond the table are not its business
KnAll(k) == Now = Out \/ (Kn(k, cell) /\ Kn(k, Now))
None(k) == \A c \in Cells(wi) : ~Kn(k, c)
DiffOk == ~AtTail \/ (None("A") /\ None("a"))
Full == Kn("q", cell)
AskLife == Run /\ settled /\ cell # Out /\ style = "table" /\ obs' = <<"life">> /\ UNCHANGED <<wi, pat, style, known, settled>> /\ Still
  /\ (n > 0 => Call("p_x", [t |-> n], surv) /\ Call("q_x", [t |-> n], RSub(1, surv)))
  /\ (n > 0 /\ Now # Out /\ Kn("q", Now) => Call("q_x", [t |-> 1, u |-> n], RMul(surv, T("q", Now))))
  /\ (n > 0 => Call("E_x", [t |-> n], RMul(RPow(V(wi), n), surv)))
  /\ (n > 0 => Call("e_x", [t |-> n], ev))
  /\ (n > 0 => Call("A_x", [t |-> n], Ins) /\ Call("a_x", [t |-> n], Ann))
  /\ (n = 0 /\ Kn("l", cell) => Call("l_x", <<>>, TV("l", cell)))
  /\ (n = 0 /\ (Kn("e", cell) \/ Whole(cell)) => Call("e_x", <<>>, T("e", cell)))
  /\ (n = 0 /\ (Kn("A", cell) \/ Whole(cell)) => Call("A_x", <<>>, T("A", cell)) /\ Call("whole_life_insurance", <<>>, T("A", cell))
        /\ Call("whole_life_insurance", [b |-> 500], RMul(500, T("A", cell))))
  /\ (n = 0 /\ (Kn("a", cell) \/ Whole(cell)) => Call("a_x", <<>>, T("a", cell)))
  /\ (n = 0 /\ (Kn("a", cell) \/ Kn("A", cell) \/ Whole(cell)) => Call("whole_life_annuity", <<>>, T("a", cell)) /\ Call("whole_life_annuity", [b |-> 20], RMul(20, T("a", cell))))
AskCover == Run /\ settled /\ cell # Out /\ n > 0 /\ style = "table" /\ pat \in {1, 2, 3, 8} /\ DiffOk /\ obs' = <<"cover">> /\ UNCHANGED <<wi, pat, style, known, settled>> /\ Still
  /\ Call("term_insurance", [t |-> n, b |-> 30], RMul(30, Ins))
  /\ Call("temporary_annuity", [t |-> n], Ann)
  /\ Call("endowment_insurance", [t |-> n], RAdd(Ins, RMul(RPow(V(wi), n), surv)))
  /\ (Now # Out /\ (Kn("A", Now) \/ Whole(Now)) => Call("deferred_insurance", [u |-> n, b |-> 10], RMul(10, RMul(RMul(RPow(V(wi), n), surv), T("A", Now)))))
  /\ (Now # Out /\ (Kn("A", Now) \/ Kn("a", Now) \/ Whole(Now)) => Call("deferred_annuity", [u |-> n], RMul(RMul(RPow(V(wi), n), surv), T("a", Now))))
  (* by the general formulas: deferred, or of any amount, the lifetime through *)
  /\ (Now # Out /\ Whole(Now) => /\ Call("A_x", [u |-> n, t |-> -999], RMul(RMul(RPow(V(wi), n), surv), T("A", Now)))
                                 /\ Call("a_x", [u |-> n, t |-> -999], RMul(RMul(RPow(V(wi), n), surv), T("a", Now)))
                                 /\ Call("a_x", [u |-> n, benefit |-> 4], RMul(4, RMul(RMul(RPow(V(wi), n), surv), T("a", Now)))))
  /\ (Now # Out /\ Kn("q", Now) => Call("A_x", [u |-> n, t |-> 1], RMul(RMul(RPow(V(wi), n + 1), surv), T("q", Now))) /\ Call("a_x", [u |-> n, t |-> 1], RMul(RPow(V(wi), n), surv)))
  /\ Call("A_x", [t |-> n, endowment |-> 20, benefit |-> 3], RAdd(RMul(3, Ins), RMul(20, RMul(RPow(V(wi), n), surv)))) /\ Call("a_x", [t |-> n, benefit |-> 6], RMul(6, Ann))
  /\ (n = 1 /\ Whole(cell) => Call("A_x", [benefit |-> 3], RMul(3, T("A", cell))) /\ Call("a_x", [benefit |-> 3], RMul(3, T("a", cell)))
        /\ Call("A_x", [t |-> -999, benefit |-> 3], RMul(3, T("A", cell))))
  /\ (IsEnd /\ Closed(wi) => Call("term_insurance", [t |-> n + 3], Ins) /\ Call("p_x", [t |-> n + 2], "0") /\ Call("q_x", [t |-> n + 2], "1")
         /\ Call("q_x", [t |-> 2, u |-> n], "0") /\ Call("E_x", [t |-> n + 1], "0") /\ Call("deferred_insurance", [u |-> n + 1], "0") /\ Call("e_x", [t |-> n + 4], ev))
Next == Learn \/ Assume \/ Settle \/ Start \/ Follow \/ Publish \/ AskLife \/ AskCover
---------------------------------------------------------------------------
(* every rule gives the true value: what is learned is true *)
Inv_Sound == \A c \in Cells(wi) :
  /\ \A f \in From(wi, c) : REq(T("l", c), RMul(T("l", f), RSub(1, T("q", f))))
  /\ REq(T("d", c), RMul(T("l", c), T("q", c)))
  /\ (In(To(wi, c)) => /\ REq(T("d", c), RSub(T("l", c), T("l", To(wi, c))))
                       /\ REq(T("q", c), RSub(1, RDiv(T("e", c), RAdd(1, T("e", To(wi, c))))))
                       /\ REq(T("a", c), RAdd(1, RMul(V(wi), RMul(RSub(1, T("q", c)), T("a", To(wi, c)))))))
  /\ REq(RAdd(T("A", c), RMul(D(wi), T("a", c))), 1)
(* nothing known is ever unlearned, and learning ends *)
Inv_Grow == GivenNow \subseteq known /\ known \subseteq {<<k, c[1], c[2]>> : k \in {"q", "l", "d", "e", "A", "a"}, c \in Cells(wi)}
Inv_Fix == settled => Learned = known
(* following a life to the end of a closed table gives the recursive values *)
Inv_End == (cell # Out /\ n > 0 /\ Now = Out) =>
   /\ REq(T("e", cell), RAdd(ev, RMul(surv, TailV(wi, "e")))) /\ REq(T("A", cell), RAdd(Ins, RMul(RMul(RPow(V(wi), n), surv), TailV(wi, "A"))))
   /\ REq(T("a", cell), RAdd(Ann, RMul(RMul(RPow(V(wi), n), surv), TailV(wi, "a"))))
Idx == 1..(6 + 6 * Thorough)
=============================================================================
