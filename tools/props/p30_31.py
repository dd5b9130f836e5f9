PROPS = [dict(
 id="P30", title="Values under a discount function of time",
 statement="With any discount function v(t) given to set_interest(v_t=...), every insurance (whole life, term, deferred, endowment, pure endowment, increasing, decreasing, and A_x with any benefit of age and time; first and second moments and variances) and every annuity valued from its payments (whole life, temporary, deferred, immediate, increasing, decreasing, a_x), annual, m times a year (Mthly) or continuous, and Z_x, Y_x, Z_from_t and Mthly.v_m, discount a payment due t years from issue by v(t), counted from the issue of the policy also when the benefit is deferred. A discount function at a constant rate gives the values of that rate. What is only defined through a constant rate (certain and life annuities) may be refused with an error but is never answered wrongly.",
 over=["inputs", "configurations"],
 quant="all discount functions (forward rates, spot rates, hyperbolic, constant) x survival models x (x, s) x m and continuous x terms, deferrals, benefits, moments",
 why_tests_cant="The tests give a discount function once, to an annuity certain; every valuation is exercised only with a constant rate, under which discounting from the wrong time is invisible.",
 files=["src/actuarialmath/interest.py", "src/actuarialmath/insurance.py", "src/actuarialmath/annuity.py", "src/actuarialmath/mthly.py", "src/actuarialmath/constantforce.py", "src/actuarialmath/mortalitylaws.py"],
 mech=[("v_t(t) inside the sums and integrals of A_x, a_x and E_x", "insurance.py, annuity.py"), ("the discount function kept instead of a rate", "interest.py")],
 observe=["Life.set_interest(v_t=...)", "Insurance.A_x", "Insurance.E_x", "Insurance.term_insurance", "Insurance.whole_life_insurance", "Insurance.deferred_insurance", "Insurance.endowment_insurance", "Insurance.increasing_insurance", "Insurance.decreasing_insurance", "Annuity.a_x", "Annuity.temporary_annuity", "Annuity.whole_life_annuity", "Annuity.deferred_annuity", "Annuity.immediate_annuity", "Annuity.increasing_annuity", "Annuity.decreasing_annuity", "Mthly insurances", "Mthly.v_m", "Z_x", "Y_x", "Z_from_t"],
 technique="TLA+ state machine of a life followed one m-th of a year (or continuously) while the value of its benefits, discounted by a yield curve, accrues; explored by TLC with summation by parts and the constant-rate twin identity as invariants; every query of every state replayed on the real classes",
 note="Continuous values on tables are compared at 2e-4 (the library integrates numerically across the corners of the survival function)."),
 dict(
 id="P31", title="Answers depend only on what an object was told",
 statement="Whatever was asked before, answered or refused, of this object or of any other, in whatever order objects were made, given rates, reserves, facts, contract terms or survival models, a question put to an object gets the answer that a fresh object gets which was only told the same things: its survival model, its interest rate (the last one accepted, however it was expressed), its reserves, facts and contract terms. Wrappers (Mthly, UDD, Woolhouse, ExtraRisk) answer for the life as it is when asked. A refused question or a rejected rate changes nothing; solve leaves an object that its function alters at the root; questions leave contracts and other arguments as they were; what an object returns (tables, terms) may be altered by the user without altering the object.",
 over=["histories", "inputs"],
 quant="all interleavings of set_interest, set_reserves, fill_reserves, set_contract, renewals, set_survival, Recursion facts, constructions of wrappers and questions over several objects",
 why_tests_cant="Each test makes one object, asks a few questions in one order and ends; state shared between objects, stale after a change, or left behind by a failed question shows only in longer sessions.",
 files=["src/actuarialmath/life.py", "src/actuarialmath/interest.py", "src/actuarialmath/mthly.py", "src/actuarialmath/udd.py", "src/actuarialmath/woolhouse.py", "src/actuarialmath/extrarisk.py", "src/actuarialmath/policyvalues.py", "src/actuarialmath/reserves.py", "src/actuarialmath/recursion.py", "src/actuarialmath/lifetable.py", "src/actuarialmath/selectlife.py", "src/actuarialmath/actuarial.py"],
 mech=[("objects hold their own interest, reserves, facts; wrappers hold the life", "life.py, reserves.py, recursion.py, mthly.py"), ("the last call with the root for the side effect", "actuarial.py")],
 observe=["all public questions of LifeTable, SelectLife, Reserves, the mortality laws, SULT, Recursion, Contract, Mthly, UDD, Woolhouse, ExtraRisk after set_interest, set_reserves, fill_reserves, set_contract, renewals, set_survival, set_q/p/e/A/a, solve"],
 technique="TLA+ trace specification (T31) of what every object was told; sessions recorded from the real library, and the same questions put to fresh objects in fresh processes, are validated by TLC event by event against it",
 note="Answers are compared within 1e-7. Where the survival model is a table, select table or uniform law and the question a sum over years, TLC also computes the value itself.")]
