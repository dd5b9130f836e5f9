-------------------------------- MODULE Q14C --------------------------------
(***************************************************************************)
(* P14: the terms of a contract as an object with history: terms are set   *)
(* one or several at a time, in any order, and a contract may be renewed.  *)
(* The state is the record of terms; a query reports every derived cost.   *)
(***************************************************************************)
EXTENDS Worlds
CONSTANTS NoQuery, Depth
VARIABLES c, orig, hist, obs
vars == <<c, orig, hist, obs>>
(* renewing the contract of a policy not limited in term leaves it unlimited *)
Default == [premium |-> "1", initial_policy |-> "0", initial_premium |-> "0", renewal_policy |-> "0", renewal_premium |-> "0",
            settlement_policy |-> "0", benefit |-> "1", endowment |-> "0", T |-> WHOLE, discrete |-> TRUE]
Val(key, k) == CASE k = "T" -> 5 + Hash(<<Seed, key, k>>, 20)
                 [] k = "discrete" -> Hash(<<Seed, key, k>>, 2) = 0
                 [] k \in {"initial_premium", "renewal_premium"} -> Q(Hash(<<Seed, key, k>>, 50), 100)
                 [] OTHER -> Q(Hash(<<Seed, key, k>>, 40000), 8)
Fields == DOMAIN Default
Groups == <<{"premium"}, {"initial_policy", "renewal_policy"}, {"initial_premium"}, {"renewal_premium", "benefit"}, {"settlement_policy"}, {"endowment", "T"},
            {"discrete"}, {"benefit"}, {"renewal_policy"}, {"initial_premium", "initial_policy", "premium", "settlement_policy"}, Fields>>
Json(r) == [k \in DOMAIN r |-> IF k \in {"T", "discrete"} THEN r[k] ELSE RStr(r[k])]
Profit(r) == RSub(RMul(r.premium, RSub(1, r.renewal_premium)), r.renewal_policy)
Cost(r) == RAdd(RSub(r.initial_policy, r.renewal_policy), RMul(r.premium, RSub(r.initial_premium, r.renewal_premium)))
Obs(r) == [k \in {"profit", "cost", "claims", "terms", "fields"} |->
   CASE k = "profit" -> RStr(Profit(r)) [] k = "cost" -> RStr(Cost(r)) [] k = "claims" -> RStr(RAdd(r.benefit, r.settlement_policy))
     [] k = "terms" -> Json([f \in Fields \ {"premium", "endowment", "T", "discrete"} |-> r[f]]) [] k = "fields" -> Json(r)]
Running == obs = NoQuery /\ Len(hist) < Depth
Make == Running /\ hist = <<>> /\ \E g \in 1..Len(Groups) :
   LET v == [k \in Groups[g] |-> Val(<<"make", g>>, k)] IN
   /\ c' = v @@ Default /\ orig' = c' /\ hist' = <<[op |-> "make", kw |-> Json(v)]>>
Set == Running /\ hist # <<>> /\ \E g \in 1..Len(Groups) :
   LET v == [k \in Groups[g] |-> Val(<<Len(hist), g>>, k)] IN
   /\ c' = v @@ c /\ hist' = Append(hist, [op |-> "set", kw |-> Json(v)])
   /\ orig' = IF \E j \in 1..Len(hist) : hist[j].op = "renew" THEN orig ELSE c'     \* the renewed contract is another object
Renew == Running /\ hist # <<>> /\ \E t \in {0, 1, 4} \cup (IF c.T = WHOLE THEN {} ELSE {c.T}) :
   /\ (c.T # WHOLE => c.T >= t)
   /\ \A j \in 1..Len(hist) : hist[j].op # "renew"
   /\ c' = [c EXCEPT !.initial_policy = c.renewal_policy, !.initial_premium = c.renewal_premium,
                     !.T = IF c.T = WHOLE THEN WHOLE ELSE c.T - t]
   /\ hist' = Append(hist, [op |-> "renew", t |-> t]) /\ UNCHANGED orig
Query == obs = NoQuery /\ hist # <<>> /\ obs' = "q" /\ UNCHANGED <<c, orig, hist>>
   /\ Emit([w |-> "-", k |-> "contract", c |-> "contract", a |-> [hist |-> hist], e |-> [now |-> Obs(c), orig |-> Obs(orig)], tol |-> "x"])
Init == c = Default /\ orig = Default /\ hist = <<>> /\ obs = NoQuery
Next == (Make /\ UNCHANGED obs) \/ (Set /\ UNCHANGED obs) \/ (Renew /\ UNCHANGED obs) \/ Query
(* premiums less expenses over the life of the policy are the same whether counted with the initial cost or not *)
Inv_FirstYear == RSub(Profit(c), Cost(c)) = RSub(RMul(c.premium, RSub(1, c.initial_premium)), c.initial_policy)
Inv_Renewed == (hist # <<>> /\ hist[Len(hist)].op = "renew") => Cost(c) = "0" /\ Profit(c) = Profit(orig)
=============================================================================
