-------------------------------- MODULE Q06 --------------------------------
(***************************************************************************)
(* P06: completing a life table from any cells that are given.             *)
(* State: the cells known so far.  Provide gives cells of the true table,  *)
(* Derive applies one identity, Assume sets the radix when nothing fixes   *)
(* the number of lives.  Completion is the fixpoint of Derive.             *)
(***************************************************************************)
EXTENDS Worlds
x0 == 50
True1 == <<R(1000), R(800), R(600), R(0)>>                        \* closed: no lives at 53
True2 == LET qs == RandQs("P06", 4) IN Mat(Lives(10000, SubSeq(qs, 1, 3)))   \* open: survivors at 53
Truths == <<True1, True2>>
Ages == 0..3
Labels == {"l", "d", "q", "p"}
Cells == {<<"l", j>> : j \in 0..3} \cup ({"d", "q", "p"} \X (0..2))
VARIABLES w, given, first, known, phase
vars == <<w, given, first, known, phase>>
Lv(j) == Truths[w][j + 1]
Truth(c) == CASE c[1] = "l" -> Lv(c[2])
              [] c[1] = "d" -> RSub(Lv(c[2]), Lv(c[2] + 1))
              [] c[1] = "q" -> RDiv(RSub(Lv(c[2]), Lv(c[2] + 1)), Lv(c[2]))
              [] c[1] = "p" -> RDiv(Lv(c[2] + 1), Lv(c[2]))

(* a cell follows from known ones by one identity *)
Follows(c, K) ==
  LET j == c[2] IN
  CASE c[1] = "q" -> <<"p", j>> \in K \/ (<<"d", j>> \in K /\ <<"l", j>> \in K /\ ~REq(Lv(j), 0))
    [] c[1] = "p" -> <<"q", j>> \in K
    [] c[1] = "d" -> <<"l", j>> \in K /\ <<"l", j + 1>> \in K
    [] c[1] = "l" -> (j < 3 /\ <<"l", j + 1>> \in K /\ <<"q", j>> \in K /\ RLt(Truth(<<"q", j>>), 1))
                  \/ (j > 0 /\ <<"l", j - 1>> \in K /\ <<"q", j - 1>> \in K)
                  \/ (j < 3 /\ <<"d", j>> \in K /\ <<"q", j>> \in K /\ RLt(0, Truth(<<"q", j>>)))
RECURSIVE Closure(_)
Closure(K) == LET N == {c \in Cells \ K : Follows(c, K)} IN IF N = {} THEN K ELSE Closure(K \cup N)
HasL(K) == \E j \in Ages : <<"l", j>> \in K
MinAge(G) == CHOOSE a \in Ages : (\E c \in G : c[2] = a) /\ \A c \in G : a <= c[2]
(* deaths given without anything that ties them to lives fix no consistent scale *)
Scaled(G) == HasL(Closure(G))
Clear(G) == Scaled(G) \/ \A c \in G : c[1] \in {"q", "p"}

Half(G) == {c \in G : Hash(<<Seed, "half", c, G>>, 2) = 0}
(* part of the cells may come in an earlier call, completed or not in between *)
Splits(G) == IF Hash(<<Seed, "split", G>>, 8) # 0 \/ Half(G) = {} \/ Half(G) = G THEN {<<{}, FALSE>>}
             ELSE {<<{}, FALSE>>, <<Half(G), FALSE>>} \cup (IF Scaled(Half(G)) THEN {<<Half(G), TRUE>>} ELSE {})
Init == /\ w \in 1..2
        /\ given \in SUBSET Cells /\ given # {} /\ Clear(given)
        /\ first \in Splits(given)
        /\ known = given /\ phase = "given"
(* one identity applied, in any order: to keep the exploration small the next derivable *)
(* cell is chosen by TLC for a quarter of the starting points, all at once otherwise    *)
Stepwise == Hash(<<"stepwise", given>>, 64) = 0
Derive == /\ phase = "given"
          /\ IF Stepwise THEN \E c \in Cells \ known : Follows(c, known) /\ known' = known \cup {c}
             ELSE LET N == {c \in Cells \ known : Follows(c, known)} IN N # {} /\ known' = known \cup N
          /\ UNCHANGED <<w, given, first, phase>>
Saturated == ~\E c \in Cells \ known : Follows(c, known)
Assume == /\ phase = "given" /\ Saturated /\ ~HasL(known)
          /\ known' = known \cup {<<"l", MinAge(given)>>}
          /\ UNCHANGED <<w, given, first, phase>>
(* with no lives known the radix 100000 is the number of lives at the youngest age *)
Scale == IF Scaled(given) THEN "1" ELSE RDiv(100000, Lv(MinAge(given)))
Val(c) == IF c[1] \in {"l", "d"} THEN RMul(Scale, Truth(c)) ELSE Truth(c)
Col(G, lb, dec(_)) == [j \in 1..4 |-> IF <<lb, j - 1>> \in G THEN dec(<<lb, j - 1>>) ELSE "none"]
Tab(G, dec(_)) == [l |-> Col(G, "l", dec), d |-> Col(G, "d", dec), q |-> Col(G, "q", dec), p |-> Col(G, "p", dec)]
Str(c) == RStr(Truth(c))
StrV(c) == RStr(Val(c))
Finish == /\ phase = "given" /\ Saturated /\ HasL(known) /\ phase' = "done"
          /\ UNCHANGED <<w, given, first, known>>
          /\ Emit([k |-> "fill", c |-> "fill", tol |-> "2e-6", w |-> "fill",
                   a |-> [x0 |-> x0, first |-> Tab(first[1], Str), fillfirst |-> first[2], given |-> Tab(given \ first[1], Str),
                          must |-> Tab(known, StrV), may |-> Tab(Cells, StrV)],
                   e |-> "=ok"])
Next == Derive \/ Assume \/ Finish
(* completion is confluent: whatever order, the same cells *)
Inv_Confluent == (phase = "done") => known = Closure(IF Scaled(given) THEN given ELSE Closure(given) \cup {<<"l", MinAge(given)>>})
(* every known column of one-year rates makes the table complete *)
Inv_Complete == (phase = "done" /\ \A j \in 0..2 : <<"q", j>> \in given \/ <<"p", j>> \in given) =>
    (\A j \in 0..2 : <<"q", j>> \in known /\ <<"p", j>> \in known)
    /\ (~Scaled(given) => \A j \in 0..3 : <<"l", j>> \in known)
(* the identities hold between the known cells, with the scale *)
Inv_Identity == (phase = "done") =>
  /\ \A j \in 0..2 : ({<<"l", j>>, <<"l", j + 1>>, <<"d", j>>} \subseteq known =>
        REq(Val(<<"d", j>>), RSub(Val(<<"l", j>>), Val(<<"l", j + 1>>))))
  /\ \A j \in 0..2 : ({<<"l", j>>, <<"l", j + 1>>, <<"p", j>>} \subseteq known =>
        REq(Val(<<"l", j + 1>>), RMul(Val(<<"l", j>>), Truth(<<"p", j>>))))
  /\ \A j \in 0..2 : REq(RAdd(Truth(<<"p", j>>), Truth(<<"q", j>>)), 1)
=============================================================================
