-------------------------------- MODULE Q27 --------------------------------
(***************************************************************************)
(* P27: the standard ultimate life table and its value tables.  State: a   *)
(* life aged y followed year by year to the end of life, accumulating the  *)
(* values of the columns of SULT; at the end every cell is known.          *)
(***************************************************************************)
EXTENDS Worlds
CONSTANTS BasisSeq, NoQuery
VARIABLES bi, y, n, acc, log, obs
vars == <<bi, y, n, acc, log, obs>>
(* model, i, ages of the table (first, last), ages asked                   *)
SU == [SULTM EXCEPT !.id = "SULT0"]                    \* the default table
SU45 == [SULTM EXCEPT !.id = "SULT45", !.x0 = 45]      \* the same law from age 45
GO30 == [GOM EXCEPT !.id = "GOM30", !.x0 = 30]         \* another law
Al(M) == {M.x0 + j : j \in 0..8}
Seeded(k) == 21 + Hash(<<Seed, "su", k>>, 95)
Bases == << <<SU, Q(1, 20), {20, 21, 39, 80, 100, 121} \cup {Seeded(k) : k \in 1..6}, {0}>>, <<SU, Q(Hash(<<Seed, "i27">>, 150) + 1, 1000), {20, 59, Seeded(7), Seeded(8)}, {1}>>, <<SU, "0", {62, 110}, {2}>>,
            <<SU45, Q(1, 25), {45, 46, 91}, {3}>>, <<GO30, Q(1, 10), {30, 31, 77}, {4}>>,
            <<T40, Q(1, 20), Al(T40), {5}>>, <<T0, Q(1, 10), Al(T0), {6}>>, <<T97, Q(1, 20), Al(T97), {7}>>, <<TR(1, 7), Q(1, 8), Al(TR(1, 7)), {8}>>, <<TR(2, 9), "0", Al(TR(2, 9)), {9}>>,
            <<TRC(1, 6), Q(1, 16), Al(TRC(1, 6)), {10}>> >>
Mo == BasisSeq[bi][1]
ii == BasisSeq[bi][2]
rr(z) == RRnd(z, 45)
Acc0 == [S |-> "1", v |-> "1", A |-> "0", A2 |-> "0", a |-> "0"]
Gone == RLe(acc.S, RPow(10, -32))
Run == obs = NoQuery
Init == /\ bi \in 1..Len(BasisSeq) /\ y \in BasisSeq[bi][3] /\ Alive(BasisSeq[bi][1], y, 0)
        /\ n = 0 /\ acc = Acc0 /\ log = <<Acc0>> /\ obs = NoQuery
Tick == /\ Run /\ ~Gone /\ n' = n + 1
        /\ LET v1 == rr(Vt(ii, n + 1)) q == PrK(Mo, y, 0, n)
           IN acc' = [S |-> rr(P(Mo, y, 0, n + 1)), v |-> v1, A |-> rr(RAdd(acc.A, RMul(v1, q))), A2 |-> rr(RAdd(acc.A2, RMul(RMul(v1, v1), q))), a |-> rr(RAdd(acc.a, RMul(acc.v, acc.S)))]
        /\ log' = Append(log, acc') /\ UNCHANGED <<bi, y, obs>>
At(t) == IF t >= n THEN [acc EXCEPT !.S = "0"] ELSE log[t + 1]
En(t) == RMul(At(t).v, At(t).S)
l0 == IF Mo.kind = "table" THEN L(Mo, y, 0) ELSE RMul(100000, P(Mo, Mo.x0, 0, y - Mo.x0))
Cols == [l_x |-> <<l0, 1>>, q_x |-> <<RSub(1, At(1).S), 6>>, a_x |-> <<acc.a, 4>>, A_x |-> <<acc.A, 5>>, A2 |-> <<acc.A2, 5>>,
         a10 |-> <<At(10).a, 4>>, A10 |-> <<RAdd(At(10).A, En(10)), 5>>, a20 |-> <<At(20).a, 4>>, A20 |-> <<RAdd(At(20).A, En(20)), 5>>,
         E5 |-> <<En(5), 5>>, E10 |-> <<En(10), 5>>, E20 |-> <<En(20), 5>>]
Row(c, a, e, tol) == Emit([w |-> Mo.id, k |-> "sult", i |-> RStr(ii), c |-> c, a |-> a, e |-> e, tol |-> tol])
AskCells == Run /\ Gone /\ obs' = <<"cells">> /\ UNCHANGED <<bi, y, n, acc, log>>
  /\ \A f \in DOMAIN Cols : Row("sult_cell", [x |-> y, col |-> f, digits |-> Cols[f][2]], RStr(Cols[f][1]),
        RStr(RDiv(RMul(RDec("0.500001"), RPow(10, -Cols[f][2])), RMax(1, Cols[f][1]))))
  /\ Row("sult_get", [x |-> y], [q |-> RStr(RSub(1, At(1).S)), p |-> RStr(At(1).S), a |-> RStr(acc.a), A |-> RStr(acc.A)], "x")
AskIndex == Run /\ n = 0 /\ bi \in {1, 4, 6} /\ y = Mo.x0 /\ \E lo \in {-1, Mo.x0 + 1, Mo.x0 + 3}, hi \in {-1, Mo.x0 + 3, Mo.x0 + 4} : obs' = <<"index", lo, hi>> /\ UNCHANGED <<bi, y, n, acc, log>>
  /\ LET from == IF lo < 0 THEN (IF Mo.x0 > 20 THEN Mo.x0 ELSE 20) ELSE lo
         last == IF Mo.kind = "table" THEN Mo.x0 + Len(Mo.l) - 1 ELSE 130
         to == IF hi < 0 THEN (IF last < 100 THEN last ELSE 100) ELSE hi
     IN Row("sult_index", (IF lo < 0 THEN <<>> ELSE [minage |-> lo]) @@ (IF hi < 0 THEN <<>> ELSE [maxage |-> hi]), <<from, to>>, "x")
Next == Tick \/ AskCells \/ AskIndex
Inv_Twin == (Run /\ Gone) => RTol(RAdd(acc.A, RMul(Disc(ii), acc.a)), 1, RPow(10, -25))
Inv_Rec == (Run /\ n = 1) => RNear(acc.A, RMul(Vf(ii), QQ(Mo, y, 0, 0, 1)))
BasesX == Bases
ASSUME DefAll([j \in 1..Len(Bases) |-> Bases[j][1]])
=============================================================================
