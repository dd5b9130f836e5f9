PROPS = [dict(
 id="P12", title="Z and Y as functions of the time of death: values, inverses and percentiles agree",
 statement="For any survival model and interest rate, the present value of a unit whole life insurance (Z) or whole life annuity (Y), annual or continuous, given the time of death is v to the payment time, respectively the value of the payments made up to death; Z_to_t and Y_to_t invert the continuous ones; Z_to_prob and Y_to_prob return the probability of a smaller value; and Z_t, Y_t, Z_from_prob, Y_from_prob return the percentile of the distribution: the time of death (the exact time, or the policy year boundary in the annual case) and the value with the requested probability. All of these also hold for the annuity at interest rate 0.",
 over=["inputs", "configurations"],
 quant="all survival models x interest rates >= 0 x ages x times of death x probabilities strictly between those of year boundaries",
 why_tests_cant="The tests look up a few percentiles of constant-force, uniform and standard-table lives; inverse relations have to hold at every time, probability and rate.",
 files=["src/actuarialmath/insurance.py", "src/actuarialmath/annuity.py", "src/actuarialmath/lifetable.py", "src/actuarialmath/constantforce.py", "src/actuarialmath/survival.py"],
 mech=[("Z_t, Z_from_t, Z_to_t, Z_from_prob, Z_to_prob", "insurance.py"), ("Y_t, Y_from_t, Y_to_t, Y_from_prob, Y_to_prob", "annuity.py"), ("closed forms", "constantforce.py, lifetable.py")],
 observe=["Z_t", "Z_from_t", "Z_to_t", "Z_from_prob", "Z_to_prob", "Y_t", "Y_from_t", "Y_to_t", "Y_from_prob", "Y_to_prob"],
 technique="TLA+ specification of a life and its lifetime distribution, quarter by quarter, explored by TLC; every query of every state replayed on the real objects"),
 dict(
 id="P13", title="Net premiums satisfy the equivalence principle",
 statement="For any survival model, interest rate, age, years since selection, term, premium-paying term, deferral, benefit and endowment amounts and initial cost, net_premium returns the level premium whose expected present value equals that of the benefits and cost - for term, whole life and endowment insurance, deferred insurance (with an endowment at its end) and deferred annuities, with and without return of premiums on death, annual or (where benefits are paid at the moment of death and premiums continuously) continuous. insurance_equivalence, annuity_equivalence and premium_equivalence convert between premium, insurance and annuity values of the same whole life or endowment policy.",
 over=["inputs", "configurations"],
 quant="all survival models x interest rates x (x, s) x term, premium term, deferral, amounts, annuity or insurance, return of premium",
 why_tests_cant="The tests price around fifteen textbook contracts with one combination of options each.",
 files=["src/actuarialmath/premiums.py", "src/actuarialmath/insurance.py", "src/actuarialmath/annuity.py"],
 mech=[("net_premium combines insurance, annuity and endowment values", "premiums.py net_premium"), ("equivalence conversions", "premiums.py")],
 observe=["net_premium", "insurance_equivalence", "annuity_equivalence", "premium_equivalence"],
 technique="TLA+ cohort specification with the insurer's fund run to the end of the policy as invariant, explored by TLC; every policy of every state priced by the real objects")]
