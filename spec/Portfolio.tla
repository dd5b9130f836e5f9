----------------------------- MODULE Portfolio -----------------------------
(* The policies sold on each basis: chosen for corner cases or drawn from the seed. *)
EXTENDS Policy
H(key, m) == Hash(<<Seed, "pol", key>>, m)
RandPol(key, N) == Pol(N, 100 * (1 + H(<<key, "b">>, 20)), IF N = WHOLE THEN 0 ELSE 50 * H(<<key, "e">>, 20), 5 * H(<<key, "s">>, 8),
  10 * H(<<key, "ip">>, 6), Q(H(<<key, "im">>, 60), 100), 5 * H(<<key, "rp">>, 5), Q(H(<<key, "rm">>, 20), 100),
  IF H(<<key, "g">>, 2) = 0 THEN "eq" ELSE R(50 + H(<<key, "gg">>, 900)))
Std(N) == <<
  Net(N, 1, 0), Net(N, 1000, 1000), Net(N, 1000, 250),
  Pol(N, 1000, 1020, 20, 50, Q(1, 2), 10, Q(1, 10), "eq"),          \* endowment equal to the death claim
  Pol(N, 1000, 1000, 0, 50, Q(1, 4), 10, Q(1, 20), R(400)),          \* premium not by equivalence
  Pol(N, 1000, 0, 20, 30, Q(3, 10), 10, Q(1, 10), "eq"),
  Pol(N, 1000, 400, 25, 0, "0", 15, Q(1, 25), R(300)),
  Pol(N, 1, 0, 0, 0, "0", 0, "0", "1") >>
Life == <<
  Net(WHOLE, 1, 0), Net(WHOLE, 1000, 0), Pol(WHOLE, 1000, 0, 20, 50, Q(1, 2), 10, Q(1, 10), "eq"),
  Pol(WHOLE, 1000, 0, 50, 100, Q(1, 4), 5, Q(1, 20), R(250)), Pol(WHOLE, 1000, 300, 20, 50, Q(1, 5), 5, Q(1, 20), R(280)), Pol(WHOLE, 1, 0, 0, 0, "0", 0, "0", "1") >>
Mix(key, ns) == <<RandPol(<<key, 1>>, ns[1]), RandPol(<<key, 2>>, ns[Len(ns)])>>
Whl(key) == <<RandPol(<<key, 3>>, WHOLE)>>
Ages(M) == {<<M.x0, 0>>, <<M.x0, 1>>, <<M.x0 + 1, 0>>}
Pols == <<
  <<T40, Q(1, 10), Ages(T40), Std(4) \o Life \o Mix("a", <<3, 5>>) \o Whl("a") \o <<Net(9, 1000, 0), Net(9, 1000, 1000), Net(1, 1000, 250), Net(20, 1000, 500)>> >>,
  <<T40, "0", {<<40, 0>>}, <<Net(3, 1000, 250), Net(3, 1, 0), Pol(4, 1000, 400, 25, 40, Q(1, 10), 15, Q(1, 25), R(300)), RandPol("b", 3)>> >>,
  <<T0, Q(1, 20), {<<0, 0>>, <<1, 1>>}, Std(3) \o Life \o Mix("c", <<2, 4>>) >>,
  <<T97, Q(1, 4), {<<97, 0>>, <<97, 2>>}, Std(4) \o Life \o Mix("d", <<3, 5>>) >>,
  <<TR(1, 7), Q(1, 8), Ages(TR(1, 7)), Std(5) \o Life \o Mix("e", <<3, 6>>) \o Whl("e") >>,
  <<T40, Q(1, 500), {<<40, 0>>, <<41, 1>>}, Std(3) \o Life>>, <<T0, "1", {<<0, 1>>}, Std(2)>>,
  <<TR(2, 9), Q(Hash(<<Seed, "i14">>, 150) + 1, 1000), {<<TR(2, 9).x0, 1>>}, Std(6) \o Life \o Mix("f", <<4, 7>>) \o Whl("f")>>,
  <<S60, Q(1, 10), {<<60, 0>>, <<60, 1>>, <<61, 2>>}, Std(4) \o Life \o Mix("g", <<2, 4>>) >>,
  <<SR(1, 6), Q(1, 25), {<<SR(1, 6).x0, 0>>}, Std(4) \o Life \o Mix("h", <<2, 4>>) \o Whl("h")>>,
  <<U12, Q(1, 5), {<<0, 0>>, <<4, 3>>}, Std(5) \o Life \o Mix("i", <<2, 5>>)>>,
  <<U100, Q(1, 20), {<<75, 5>>}, Std(8) \o Life \o <<Net(60, 1000, 1000), Net(60, 1000, 300)>> >>,
  <<CF1, Q(1, 25), {<<0, 0>>, <<30, 2>>}, Std(5) \o Life \o Mix("j", <<2, 8>>) \o Whl("j")>>,
  <<B20, Q(1, 25), {<<10, 4>>}, Std(5) \o Life \o Mix("k", <<2, 5>>)>>,
  <<TL, Q(1, 20), {<<33, 2>>}, <<Net(25, 1000, 300), Pol(25, 1000, 1020, 20, 50, Q(1, 2), 10, Q(1, 10), "eq"), Net(WHOLE, 1000, 0)>> >>,
  <<SULTM, Q(1, 20), {<<60, 0>>, <<50, 10>>}, Std(5)>> >>
PolsX == Pols
ASSUME DefAll([j \in 1..Len(Pols) |-> Pols[j][1]])
=============================================================================
