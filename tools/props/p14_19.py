WHY = "The tests price and value a handful of textbook policies with one combination of expenses, benefits and term each."
PROPS = [dict(
 id="P14", title="Gross premiums satisfy the equivalence principle; contract terms are kept and derived costs follow",
 statement="gross_premium, from insurance and annuity factors (one of them possibly left to the twin identity at positive interest, annual or continuous), pure endowment factor, increasing insurance factor for premiums returned on death, benefit, endowment, settlement, initial and renewal expenses per policy and per premium, is the level premium whose expected present value net of premium-related expenses equals that of benefits and expenses; this also holds when the factors are the life's own and the terms come from Contract.premium_terms. A Contract keeps every term it was made with or that was last set by set_contract; renewal_profit, initial_cost and claims_cost are always those of the current terms; renewals(t) is a separate contract with initial expenses equal to renewal ones and the remaining term (whole life stays whole life), and leaves the original unchanged.",
 over=["inputs", "configurations", "histories"],
 quant="all bases x policies (term, benefits, endowments, settlement, four expense loadings) x sequences of contract operations",
 why_tests_cant=WHY + " Contracts are objects with history: any order of set_contract and renewals must leave consistent terms.",
 files=["src/actuarialmath/premiums.py", "src/actuarialmath/policyvalues.py"],
 mech=[("gross_premium", "premiums.py gross_premium"), ("Contract terms and derived costs", "policyvalues.py Contract")],
 observe=["gross_premium", "Contract(...)", "set_contract", "renewals", "renewal_profit", "initial_cost", "claims_cost", "premium_terms"],
 technique="TLA+ policy specification whose invariant runs the fund of the priced policy to its end, and a TLA+ state machine of a contract's history; every query and history replayed on the real objects"),
 dict(
 id="P15", title="Net policy values and variances are those of the future loss under the net premium",
 statement="At every whole year t of a policy's term up to its maturity (term insurance, endowment insurance with any endowment, whole life; terms reaching beyond the limiting age included; issue age [x]+s), net_policy_value is the expected present value of remaining benefits less remaining net premiums, and for whole life and endowment insurance net_policy_variance is the variance of that loss, with annual or continuous payments; net_future_loss and net_variance_loss give the same from insurance factors. (Whole life and equal endowment: positive interest.)",
 over=["inputs", "configurations"],
 quant="all bases x (x, s) x policies x years since issue",
 why_tests_cant=WHY,
 files=["src/actuarialmath/policyvalues.py"],
 mech=[("net policy value and variance", "policyvalues.py net_policy_value, net_policy_variance, net_future_loss, net_variance_loss")],
 observe=["net_policy_value", "net_policy_variance", "net_future_loss", "net_variance_loss"],
 technique="TLA+ policy specification (retrospective fund = prospective reserve, Hattendorff's theorem and maturity values as invariants) explored by TLC; every policy-year replayed on the real objects"),
 dict(
 id="P16", title="Gross policy values and variances are those of the future gross loss",
 statement="At every whole year t of a policy's term up to its maturity, gross_policy_value is the expected present value of remaining benefits, settlement and renewal expenses (at t = 0 also initial expenses) less remaining gross premiums, for any premium, term, benefit, endowment and expense loadings, and for whole life and endowment insurance (endowment equal to the death claim) gross_policy_variance is the variance of that loss, annual or continuous; gross_future_loss and gross_variance_loss give the same from insurance and annuity factors, either of which may be left to the twin identity. Without a contract argument the default contract applies. (Whole life and equal endowment: positive interest.)",
 over=["inputs", "configurations"],
 quant="all bases x (x, s) x policies with expenses x years since issue",
 why_tests_cant=WHY,
 files=["src/actuarialmath/policyvalues.py"],
 mech=[("gross policy value and variance", "policyvalues.py gross_policy_value, gross_policy_variance, gross_future_loss, gross_variance_loss")],
 observe=["gross_policy_value", "gross_policy_variance", "gross_future_loss", "gross_variance_loss"],
 technique="TLA+ policy specification (retrospective fund = prospective reserve, Hattendorff's theorem and maturity values as invariants) explored by TLC; every policy-year replayed on the real objects"),
 dict(
 id="P17", title="The loss at issue as a function of the time of death, its inverse and its percentiles",
 statement="For any contract (annual or continuous, whole life or limited term with endowment, expenses), L_from_t is the present value of benefits and expenses less premiums if death comes at time t: the death claim within the term, otherwise only the endowment at its end, and premiums and renewal expenses only while alive and within the term. Where later death means a smaller loss: L_to_t is the earliest policy year (annual), respectively the time within the term (continuous), with a loss of at most L; L_to_prob is the probability of a loss of at most L; L_from_prob is the percentile of the loss.",
 over=["inputs", "configurations"],
 quant="all bases x policies x times of death, losses and probabilities strictly inside the steps of the distribution",
 why_tests_cant="The tests compute four losses; inverse relations have to hold for every contract, time of death and probability.",
 files=["src/actuarialmath/policyvalues.py"],
 mech=[("L_from_t, L_to_t, L_to_prob, L_from_prob", "policyvalues.py")],
 observe=["L_from_t", "L_to_t", "L_to_prob", "L_from_prob"],
 technique="TLA+ policy specification of the loss random variable explored by TLC; every query replayed on the real objects"),
 dict(
 id="P18", title="The reserves table follows the one-year reserve equation under any history",
 statement="After any sequence of set_reserves (term stated, any known reserves) and fill_reserves (any contract, with or without reserves returned on death), the reserves table holds 0 at issue, the endowment at the end of the term, every value last set by hand, and in place of every missing value the one that satisfies (V_t + premium - expenses)(1+i) = q (benefit and settlement) + p V_{t+1} with the first year's expenses in the first year; filled from nothing at the equivalence premium these are the gross policy values. t_V returns the recorded value, otherwise the forward recursion from the year before, otherwise the backward recursion from the year after, otherwise None, for any benefit function, premium and expenses; forward and backward recursions invert each other.",
 over=["inputs", "histories"],
 quant="all bases x policies x sequences of set_reserves / fill_reserves x single-reserve questions",
 why_tests_cant="The tests do about ten one-step recursions; the table is mutable state and has to be right after any order of operations.",
 files=["src/actuarialmath/reserves.py"],
 mech=[("reserves table", "reserves.py set_reserves, fill_reserves, reserves_frame"), ("recursion", "reserves.py t_V, t_V_forward, t_V_backward")],
 observe=["set_reserves", "fill_reserves", "reserves_frame", "t_V", "t_V_forward", "t_V_backward"],
 technique="TLA+ state machine of the reserves table explored by TLC (histories up to three operations); every history replayed on the real Reserves objects"),
 dict(
 id="P19", title="Interim reserves and full preliminary term reserves",
 statement="Between anniversaries, r_V_backward from the next recorded reserve and r_V_forward from the last one give the value of what remains of the year under the life's fractional-age assumption (deaths' benefits paid at the end of the year), agree when the recorded reserves satisfy the one-year equation, and are None when no reserve is on record. FPT_premium is the one-year cost of insurance in the first year and the level premium of the policy issued a year later after that; FPT_policy_value is 0 in the first year and that later policy's value afterwards, for any term, benefit, endowment, annual or continuous.",
 over=["inputs", "configurations"],
 quant="all bases x policies x years x fractions of a year",
 why_tests_cant="The tests contain two interim and four modified reserves.",
 files=["src/actuarialmath/reserves.py", "src/actuarialmath/fractional.py"],
 mech=[("interim reserves", "reserves.py r_V_forward, r_V_backward"), ("modified reserves", "reserves.py FPT_premium, FPT_policy_value")],
 observe=["r_V_forward", "r_V_backward", "FPT_premium", "FPT_policy_value"],
 technique="TLA+ policy specification (the modified premiums build up the modified reserve; interim values are consistent both ways, as invariants) explored by TLC; every query replayed on the real objects")]
