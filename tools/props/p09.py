PROPS = [dict(
 id="P09", title="Discrete insurance EPVs, moments and variances are the sum over years of death",
 statement="For any survival model (life table, survival functions, constant force, uniform/beta/Gompertz-Makeham law, select model), interest rate (including 0), issue age, years since selection and term, every discrete insurance - whole life, term, deferred, endowment, pure endowment, increasing, decreasing, and a general benefit function with endowment - has expected value, second moment and variance equal to the sum over possible years of death of (benefit times discount) to that power times its probability. Terms given as exactly the remaining years, longer than them, or as whole life agree, and benefits due after the limiting age are worth 0.",
 over=["inputs", "configurations"],
 quant="all survival models x interest rates >= 0 x (x, s) x deferral, term, benefit amounts, endowment amounts, moments 1, 2 and variance",
 why_tests_cant="The tests sample about thirty textbook insurances, nearly all with s=0, one benefit amount and first moments; the combination of selection, term, amount and moment is unbounded.",
 files=["src/actuarialmath/insurance.py", "src/actuarialmath/lifetable.py", "src/actuarialmath/constantforce.py", "src/actuarialmath/mortalitylaws.py", "src/actuarialmath/selectlife.py"],
 mech=[("Insurance.A_x sums benefit x discount x deferred mortality", "insurance.py A_x"), ("term/deferred/endowment from whole life and pure endowment", "insurance.py"), ("closed forms of the special laws", "constantforce.py, mortalitylaws.py")],
 observe=["whole_life_insurance", "term_insurance", "deferred_insurance", "endowment_insurance", "E_x", "increasing_insurance", "decreasing_insurance", "A_x", "Z_x"],
 technique="TLA+ cohort specification explored by TLC; every query of every state replayed on the real objects")]
