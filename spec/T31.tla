-------------------------------- MODULE T31 --------------------------------
(***************************************************************************)
(* P31: a session of a user with the library, judged from its recording.   *)
(* State: what every object has been told and not been told again --       *)
(* its survival model, its interest (the last rate accepted, in whatever   *)
(* form it was given), its reserves table, facts or policy terms -- and    *)
(* every answer seen so far, by what was asked of what.  A wrapper around  *)
(* a life is told what the life is told.  The next event has to be one     *)
(* this state allows: an answer that the same question had before of an    *)
(* object that was told the same things (in this session or in a fresh     *)
(* process), the value the survival model and the rate give it where that  *)
(* is a matter of a sum over years, arguments left as they were.  A        *)
(* refused question or a rejected rate leaves everything as it was.        *)
(***************************************************************************)
EXTENDS Products, TLC
VARIABLES tr, j, objs, seen, bad
vars == <<tr, j, objs, seen, bad>>
Traces == Load("trace")
T == Traces[tr]
ev == T.ev[j]
Ops == {"new", "int", "solvei", "model", "set", "ren", "fact", "res", "fill", "ask"}
EmptyF == [x \in {} |-> ""]
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
(*----------------------------------------------------------------- models *)
Model(n) == IF n = 5 THEN NoSel ELSE LET m == T.models[n] IN
  CASE m.kind = "table" -> [id |-> "m", kind |-> "table", x0 |-> m.x0, frac |-> m.frac, l |-> m.l]
    [] m.kind = "select" -> [id |-> "m", kind |-> "select", x0 |-> m.x0, per |-> m.per, rows |-> m.rows, frac |-> m.frac]
    [] m.kind = "cforce" -> [id |-> "m", kind |-> "cforce", x0 |-> 0, p |-> m.p, frac |-> "law"]
    [] m.kind = "beta" -> [id |-> "m", kind |-> "beta", x0 |-> 0, w |-> m.w, alpha |-> m.alpha, frac |-> "law"]
    [] OTHER -> NoSel
(*---------------------------------------------------- what was told so far *)
Zero0 == [kind |-> "i", i |-> "0"]
Rate(by, val) == CASE by = "i" -> [kind |-> "i", i |-> R(val)]
   [] by = "d" -> [kind |-> "i", i |-> RSub(RDiv(1, RSub(1, val)), 1)]
   [] by = "v" -> [kind |-> "i", i |-> RSub(RDiv(1, val), 1)]
   [] by = "i_m" -> [kind |-> "i", i |-> RSub(RPow(RAdd(1, RDiv(val, 4)), 4), 1)]
   [] by = "d_m" -> [kind |-> "i", i |-> RSub(RPow(RDiv(1, RSub(1, RDiv(val, 4))), 4), 1)]
   [] by = "curve" -> [kind |-> "curve", i |-> val]
RECURSIVE Merge(_, _)
Merge(f, kw) == IF Len(kw) = 0 THEN f ELSE Merge(Upd(f, kw[1][1], RRec(kw[1][2])), Tail(kw))
Terms0 == [premium |-> "1", initial_policy |-> "0", initial_premium |-> "0", renewal_policy |-> "0", renewal_premium |-> "0",
           settlement_policy |-> "0", benefit |-> "1", endowment |-> "0", T |-> "-999"]
Fields == {"premium", "initial_policy", "initial_premium", "renewal_policy", "renewal_premium", "settlement_policy", "benefit", "endowment", "T"}
Renewed(c, t) == [c EXCEPT !.initial_policy = c.renewal_policy, !.initial_premium = c.renewal_premium, !.T = RSub(c.T, t)]
Blank == [real |-> "", mi |-> 0, life |-> "", m |-> 0, opt |-> "", rate |-> Zero0, con |-> Terms0, facts |-> EmptyF, told |-> <<>>]
FactKeys(f) == {<<k, f[k]>> : k \in DOMAIN f}
New == [Blank EXCEPT !.real = ev.real, !.mi = ev.mi, !.life = ev.life, !.m = ev.m, !.opt = ev.opt, !.rate = IF ev.real = "sult0" THEN Rate("i", "1/20") ELSE Zero0, !.con = Merge(Terms0, ev.kw)]
Ob == objs[ev.o]
(* the rates of the recursion's derivations and a life's reserves are made with the rate at the time *)
ConKey(c) == IF c = "" THEN "" ELSE ToString([f \in Fields |-> IF f = "T" /\ RLt(objs[c].con[f], 0) THEN "whole" ELSE RStr(objs[c].con[f])])
Basis(o) == LET life == IF o.life = "" THEN o ELSE objs[o.life] IN
  ToString(<<life.real, life.mi, life.rate.kind, RStr(life.rate.i)>>)
  \o ToString(<<o.real, o.m, o.opt, FactKeys(o.facts)>>)
NeedsReserves == {"reserves_frame", "t_V", "plot"}
Key == ev.aj \o Basis(Ob) \o ConKey(ev.c) \o (IF Ob.real = "contract" THEN ConKey(ev.o) ELSE "")
       \o (IF ev.fn \in NeedsReserves THEN ToString(Ob.told) ELSE "")
(*--------------------------------------------- values of the model itself *)
One(k) == "1"
ii == Ob.rate.i
Mo == Model(Ob.mi)
Has(f) == f \in DOMAIN ev.a
Arg(f) == ev.a[f]
Summable == {"p_x", "q_x", "e_x", "E_x", "whole_life_insurance", "term_insurance", "deferred_insurance", "endowment_insurance", "increasing_insurance",
  "whole_life_annuity", "temporary_annuity", "deferred_annuity"}
Yrs(t) == LET lf == Left(Mo, Arg("x"), Arg("s")) IN IF t = WHOLE \/ t > lf THEN lf ELSE t
Valued == /\ Ob.life = "" /\ Ob.real \notin {"recursion", "static", "contract"} /\ ev.fn \in Summable /\ Mo.kind \in {"table", "select", "beta"} /\ Has("s") /\ Has("x")
          /\ Ob.rate.kind = "i" /\ (Has("discrete") => Arg("discrete")) /\ (Has("variance") => ~Arg("variance")) /\ (Has("moment") => Arg("moment") \in {1, 2, VARIANCE})
          /\ Arg("s") >= 0 /\ Alive(Mo, Arg("x"), Arg("s")) /\ (ev.fn = "e_x" => (Has("curtate") /\ Arg("curtate") /\ Has("moment") /\ Arg("moment") = 1))
          /\ (ev.fn = "E_x" => Has("t") /\ Arg("t") >= 0)
M1 == IF Has("moment") THEN Arg("moment") ELSE 1
B1 == IF Has("b") THEN Arg("b") ELSE 1
tt == IF Has("t") THEN Arg("t") ELSE WHOLE
Sc(m) == IF m = 1 THEN R(B1) ELSE RMul(B1, B1)
Value == LET x == Arg("x") s == Arg("s") IN
  CASE ev.fn = "p_x" -> P(Mo, x, s, tt)
    [] ev.fn = "q_x" -> QQ(Mo, x, s, Arg("u"), tt)
    [] ev.fn = "e_x" -> Sum(1, Yrs(tt), LAMBDA k : P(Mo, x, s, k))
    [] ev.fn = "E_x" -> PureE(Mo, ii, x, s, tt, M1, Arg("endowment"))
    [] ev.fn = "whole_life_insurance" -> RMul(Sc(M1), InsM(Mo, ii, x, s, 0, Yrs(WHOLE), M1, One, Zero))
    [] ev.fn = "term_insurance" -> RMul(Sc(M1), InsM(Mo, ii, x, s, 0, Yrs(tt), M1, One, Zero))
    [] ev.fn = "deferred_insurance" -> LET n == Yrs(IF tt = WHOLE THEN WHOLE ELSE Arg("u") + tt) IN
         IF n <= Arg("u") THEN "0" ELSE RMul(Sc(M1), InsM(Mo, ii, x, s, Arg("u"), n - Arg("u"), M1, One, Zero))
    [] ev.fn = "endowment_insurance" -> InsM(Mo, ii, x, s, 0, tt, M1, LAMBDA k : R(B1), IF Arg("endowment") < 0 THEN R(B1) ELSE R(Arg("endowment")))
    [] ev.fn = "increasing_insurance" -> RMul(B1, InsM(Mo, ii, x, s, 0, Yrs(tt), 1, LAMBDA k : R(k), Zero))
    [] ev.fn = "whole_life_annuity" -> RMul(B1, Ann(Mo, ii, x, s, 0, Yrs(WHOLE), One))
    [] ev.fn = "temporary_annuity" -> RMul(B1, Ann(Mo, ii, x, s, 0, Yrs(tt), One))
    [] ev.fn = "deferred_annuity" -> LET n == Yrs(IF tt = WHOLE THEN WHOLE ELSE Arg("u") + tt) IN
         IF n <= Arg("u") THEN "0" ELSE RMul(B1, Ann(Mo, ii, x, s, Arg("u"), n - Arg("u"), One))
(*------------------------------------------------------------- the verdict *)
tol == RRec("1e-7")
(* answers refused by design: select tables keep first moments of whole-year values *)
Same(a, b) == a.txt = b.txt /\ Len(a.num) = Len(b.num) /\ \A k \in 1..Len(a.num) : RTol(RRec(a.num[k]), RRec(b.num[k]), tol)
RateShown == ev.got.num # <<>> /\ RTol(RRec(ev.got.num[1]), Rate(ev.by, ev.val).i, tol)
             /\ RTol(RRec(ev.got.num[2]), Vf(Rate(ev.by, ev.val).i), tol) /\ RTol(RRec(ev.got.num[3]), Disc(Rate(ev.by, ev.val).i), tol)
Wrong ==
  IF ev.failed THEN "refused what may not be refused"
  ELSE CASE ev.op = "int" ->
         IF ev.by = "bad" THEN (IF ev.res = "ok" THEN "accepted a discount function that is not 1 at time 0" ELSE "")
         ELSE IF ev.res # "ok" THEN "rate refused"
         ELSE IF ev.by = "curve" THEN (IF ev.got.num # <<>> THEN "shows a constant rate" ELSE "")
         ELSE IF RateShown THEN "" ELSE "shows another rate"
    [] ev.op = "solvei" -> IF Len(ev.got.num) = 2 /\ RTol(RRec(ev.got.num[1]), RRec(ev.got.num[2]), tol) THEN "" ELSE "not left at the root"
    [] ev.op = "res" -> IF ev.same THEN "" ELSE "arguments changed"
    [] ev.op = "ask" ->
         IF ~ev.same THEN "arguments changed"
         ELSE IF Key \in DOMAIN seen /\ ~Same(seen[Key], ev.ans) THEN "another answer than before"
         ELSE IF Valued /\ ~(ev.ans.txt = "raises" /\ Ob.real = "sl") /\ ~(Len(ev.ans.num) = 1 /\ RTol(RRec(ev.ans.num[1]), Value, tol)) THEN "not the value"
         ELSE ""
    [] OTHER -> ""
Told(o) == [objs[o] EXCEPT !.told = Append(@, <<ev.op, IF ev.op = "res" THEN ToString(<<ev.T, ev.en, ev.V>>)
    ELSE ToString(<<ev.x, ev.s, ev.ret, ConKey(ev.c)>>) \o Basis(objs[o])>>)]
After ==
  CASE ev.op = "new" -> Upd(objs, ev.o, New)
    [] ev.op = "int" -> IF ev.by = "bad" THEN objs ELSE Upd(objs, ev.o, [Ob EXCEPT !.rate = Rate(ev.by, ev.val)])
    [] ev.op = "solvei" -> Upd(objs, ev.o, [Ob EXCEPT !.rate = [kind |-> "i", i |-> RRnd(RRec(ev.got.num[2]), 9)]])
    [] ev.op = "model" -> Upd(objs, ev.o, [Ob EXCEPT !.mi = ev.mi])
    [] ev.op = "set" -> Upd(objs, ev.o, [Ob EXCEPT !.con = Merge(@, ev.kw)])
    [] ev.op = "ren" -> Upd(objs, ev.to, [Ob EXCEPT !.con = Renewed(@, ev.t)])
    [] ev.op = "fact" -> Upd(objs, ev.o, [Ob EXCEPT !.facts = Upd(@, ev.key, ev.val)])
    [] ev.op \in {"res", "fill"} -> Upd(objs, ev.o, Told(ev.o))
    [] OTHER -> objs
Init == tr \in 1..Len(Traces) /\ j = 1 /\ objs = EmptyF /\ seen = EmptyF /\ bad = ""
Next == /\ j <= Len(T.ev) /\ bad = ""
        /\ bad' = Wrong
        /\ j' = j + 1
        /\ objs' = (IF bad' = "" THEN After ELSE objs)
        /\ seen' = (IF bad' = "" /\ ev.op = "ask" /\ Key \notin DOMAIN seen THEN Upd(seen, Key, ev.ans) ELSE seen)
        /\ UNCHANGED tr
        /\ (IF bad' # "" THEN Emit([trace |-> tr, verdict |-> "bad", at |-> j, clause |-> bad',
                                    exp |-> IF ev.op = "ask" /\ Key \in DOMAIN seen THEN ToString(seen[Key]) ELSE IF ev.op = "ask" /\ Valued THEN RStr(Value) ELSE ""])
            ELSE IF j = Len(T.ev) THEN Emit([trace |-> tr, verdict |-> "ok", at |-> 0, clause |-> "", exp |-> ""]) ELSE TRUE)
---------------------------------------------------------------------------
Inv_Known == j <= Len(T.ev) => ev.op \in Ops
(* wrappers have no rate of their own *)
Inv_Alias == \A o \in DOMAIN objs : objs[o].life # "" => objs[o].rate = Zero0 /\ objs[objs[o].life].life = ""
Inv_Rate == \A o \in DOMAIN objs : objs[o].rate.kind = "i" => RLt(-1, objs[o].rate.i)
=============================================================================
