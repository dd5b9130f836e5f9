------------------------------- MODULE Worlds -------------------------------
(***************************************************************************)
(* The catalogue of survival models the checks are run on: fixed tables    *)
(* chosen for their corner cases and tables drawn from the seed.           *)
(***************************************************************************)
EXTENDS Products, TLC

Seed  == Param("seed", 1)
Thorough == Param("thorough", 0) = 1
Pick(set_as_seq, key) == set_as_seq[Hash(<<Seed, key>>, Len(set_as_seq)) + 1]

Tbl(id, x0, l, frac) == [id |-> id, kind |-> "table", x0 |-> x0, l |-> l, frac |-> frac]

(* a table from one-year mortality rates, the last of which is 1           *)
RECURSIVE Lives(_, _)
Lives(l0, qs) == IF Len(qs) = 0 THEN <<l0>>
                 ELSE <<l0>> \o Lives(RMul(l0, RSub(1, Head(qs))), Tail(qs))
TblQ(id, x0, radix, qs, frac) == Tbl(id, x0, Mat(Lives(R(radix), qs)), frac)

QVals == <<Q(1,20), Q(1,10), Q(1,5), Q(3,10), Q(1,2), Q(4,5), Q(1,100), Q(1,4)>>
RandQs(key, len) == [j \in 1..len |-> IF j = len THEN R(1) ELSE QVals[Hash(<<Seed, key, j>>, Len(QVals)) + 1]]

T40   == Tbl("T40", 40, <<1000, 900, 720, 504, 252, 63, 0>>, "udd")
T40C  == Tbl("T40C", 40, <<1000, 900, 720, 504, 252, 63, 0>>, "cfm")
T0    == Tbl("T0", 0, <<100000, 90000, 90000, 45000, 27000, 0>>, "udd")   \* age 0 start, a year without deaths
T97   == Tbl("T97", 97, <<1000, 800, 600, 300, 90, 9, 0>>, "udd")         \* crosses the default maximum age 100
T0C   == Tbl("T0C", 0, <<100000, 90000, 90000, 45000, 27000, 0>>, "cfm")
TRC(k, len) == TblQ("TRC" \o ToString(k), 20 + Hash(<<Seed, "ageC", k>>, 60), 100000, RandQs(<<"TC", k>>, len), "cfm")
TR(k, len) == TblQ("TR" \o ToString(k), 20 + Hash(<<Seed, "age", k>>, 60), 100000, RandQs(<<"T", k>>, len), "udd")
(* one-year survival (9/10)^2 and (4/5)^2 ...: half years are rational under cfm *)
TSq   == Tbl("TSq", 30, <<10000, 8100, 5184, 2916, 729>>, "cfm")
T1    == Tbl("T1", 25, Mat(<<R(1), Q(3, 4), Q(3, 5), Q(3, 20), R(0)>>), "udd")     \* radix of one life
TOp   == Tbl("TOp", 95, <<1000, 800, 700, 420, 210>>, "udd")                  \* survivors at the last age in the table
TL    == Tbl("TL", 30, Mat([j \in 1..41 |-> R(1600 - ((j - 1) * (j - 1)))]), "udd")   \* forty years of age
Sel(id, x0, per, rows, frac) == [id |-> id, kind |-> "select", x0 |-> x0, per |-> per, rows |-> rows, frac |-> frac]

(* select table from ultimate lives u[1..] at ages x0+per, ... : row y has select   *)
(* mortality = ultimate mortality scaled so that l[y]+d is above the ultimate line   *)
SelRow(u, j, per, num, den) ==
  \* lives [y]+d: ultimate l_{y+per} inflated by lighter select mortality backwards
  [d \in 1..(per + 1) |-> RDiv(R(u[j]), RProd([e \in 1..(per + 1 - d) |-> RSub(1, Q(num + d + e + (j % 3), den))]))]
S60 == Sel("S60", 60, 2, Mat([j \in 1..6 |-> Mat(SelRow(<<8000, 6400, 4480, 2240, 560, 0>>, j, 2, 1, 100))]), "udd")

S60C == Sel("S60C", 60, 2, Mat([j \in 1..6 |-> Mat(SelRow(<<8000, 6400, 4480, 2240, 560, 0>>, j, 2, 1, 100))]), "cfm")
SR(k, len) == Sel("SR" \o ToString(k), 30 + Hash(<<Seed, "agesel", k>>, 40), 1 + Hash(<<Seed, "per", k>>, 3),
  LET u == Lives(100000, RandQs(<<"U", k>>, len))
      per == 1 + Hash(<<Seed, "per", k>>, 3)
  IN Mat([j \in 1..(len + 1) |-> Mat(SelRow(u, j, per, 1 + Hash(<<Seed, "num", k>>, 4), 100))]), "udd")
SL    == Sel("SL", 50, 2, Mat([j \in 1..26 |-> Mat(SelRow([k \in 1..26 |-> 6250 - (10 * (k - 1) * (k - 1))], j, 2, 1, 100))]), "udd")
Geo(id, p) == [id |-> id, kind |-> "cforce", x0 |-> 0, p |-> p, frac |-> "law"]
CF1 == Geo("CF1", Q(24, 25))
CF2 == Geo("CF2", Q(9, 10))
Bta(id, w, al) == [id |-> id, kind |-> "beta", x0 |-> 0, w |-> w, alpha |-> al, frac |-> "law"]
U12 == Bta("U12", 12, R(1))
U100 == Bta("U100", 100, R(1))
B20 == Bta("B20", 20, R(2))
Mak(id, A, B, c) == [id |-> id, kind |-> "makeham", x0 |-> 20, A |-> A, B |-> B, c |-> c, frac |-> "law"]
GOM == Mak("GOM", "0", RDec("0.00005"), RDec("1.1"))
SelMu(id, A, B, C) == [id |-> id, kind |-> "selmu", x0 |-> 0, A |-> A, B |-> B, C |-> C, frac |-> "law"]
SM1 == SelMu("SM1", Q(1, 100), Q(1, 1000), Q(1, 200))
B9 == Bta("B9", 9, Q(1, 2))
SULTM == Mak("SULT", RDec("0.00022"), RDec("0.0000027"), RDec("1.124"))

NLives(M) == IF M.kind = "table" THEN Len(M.l) ELSE 0

(* JSON definition of a model, from which the driver constructs real objects *)
Num(r) == RStr(r)
Def(M) ==
  CASE M.kind = "table" -> [world |-> M.id, kind |-> "table", x0 |-> M.x0, frac |-> M.frac,
                            l |-> Mat([j \in 1..Len(M.l) |-> Num(M.l[j])])]
    [] M.kind = "select" -> [world |-> M.id, kind |-> "select", x0 |-> M.x0, frac |-> M.frac, per |-> M.per,
                             rows |-> Mat([j \in 1..Len(M.rows) |-> Mat([d \in 1..Len(M.rows[j]) |-> Num(M.rows[j][d])])])]
    [] M.kind = "cforce" -> [world |-> M.id, kind |-> "cforce", p |-> Num(M.p), mu |-> Num(RNeg(RLn(M.p)))]
    [] M.kind = "beta" -> [world |-> M.id, kind |-> "beta", w |-> M.w, alpha |-> Num(M.alpha)]
    [] M.kind = "selmu" -> [world |-> M.id, kind |-> "selmu", A |-> Num(M.A), B |-> Num(M.B), C |-> Num(M.C)]
    [] M.kind = "makeham" -> [world |-> M.id, kind |-> "makeham", A |-> Num(M.A), B |-> Num(M.B), c |-> Num(M.c)]
DefAll(seq) == \A j \in 1..Len(seq) : Emit(Def(seq[j]))
=============================================================================
