FILES = ["src/actuarialmath/recursion.py"]
PROPS = [
 dict(
 id="P20", title="Recursion only ever answers with true values",
 statement="When the facts given to Recursion (mortality, survival, expected lifetimes, pure endowments, insurances, annuities, increasing and decreasing insurances, with any terms, deferrals, benefit amounts, endowments, moments or variances, discrete or continuous, by x or by x and s, set in any order, with the interest rate set before or after) are true of some group of lives (younger than the library's oldest age of 100), every answer it gives to any question about those lives, at any depth, is the true value: it may find no answer, but it never gives a wrong one, and asking other questions first does not change that.",
 over=["inputs", "histories"],
 quant="all lives x interest rates x sets of facts x questions x depths x orders",
 why_tests_cant="The tests solve a dozen textbook exercises; a wrong rule shows up only for the combination of fact and question that uses it, with a benefit, endowment, moment or term that is not 1.",
 files=FILES,
 mech=[("chains of recursion formulas", "recursion.py: Recursion._p_x, _q_x, _e_x, _E_x, _A_x, _IA_x, _DA_x, _a_x"), ("facts stored by life, term and benefit", "recursion.py: Recursion.set_* and _db_*")],
 observe=["Recursion.set_q, set_p, set_e, set_E, set_A, set_IA, set_DA, set_a", "Recursion.q_x, p_x, e_x, E_x", "Recursion.whole_life_insurance, term_insurance, deferred_insurance, endowment_insurance, increasing_insurance, decreasing_insurance", "Recursion.whole_life_annuity, temporary_annuity, deferred_annuity"],
 technique="TLA+ specification of closed groups of lives valued from first principles, and of the states of knowledge from which a goal can be derived, explored by TLC; in each, facts and further true facts are given to real Recursion objects, and every answer compared with the truth"),
 dict(
 id="P21", title="Recursion finds what follows from the facts given",
 statement="A value that follows by one of the actuarial relations Recursion documents from facts that were given (survival and mortality complements, chains and differences; temporary and whole-life expected lifetimes; pure endowments from survival and from insurances; backward and forward recursion of insurances, annuities, deferred and varying insurances; term, endowment and deferred from whole life and pure endowment; annuity and insurance twins; variances from moments), or by two such relations used one inside another, is found at the default depth, and is the true value.",
 over=["inputs", "histories"],
 quant="all lives x interest rates x goals x derivations of one or two steps",
 why_tests_cant="The tests cover the derivations of a dozen exercises, of the thousands of combinations of goal, relation, term, deferral, endowment and moment.",
 files=FILES,
 mech=[("backward and forward formulas tried in turn to a depth", "recursion.py: Recursion._get_p, _get_q ... and public queries"), ("default depth", "recursion.py: Recursion.__init__")],
 observe=["Recursion.set_q, set_p, set_e, set_E, set_A, set_IA, set_DA, set_a", "Recursion.q_x, p_x, e_x, E_x", "Recursion.whole_life_insurance, term_insurance, deferred_insurance, endowment_insurance, increasing_insurance, decreasing_insurance", "Recursion.whole_life_annuity, temporary_annuity, deferred_annuity"],
 technique="TLA+ state machine of derivations (each relation checked by TLC to be true of the lives), whose states are sets of facts that a goal follows from; every state replayed on real Recursion objects",
 note="Two relations deep: not all relations; listed in DESIGN.md."),
 dict(
 id="P22", title="Recursion keeps the facts it was given: no more, no less",
 statement="A value given to Recursion by set_q, set_p, set_e, set_E, set_A, set_a, set_IA or set_DA is returned whenever that same quantity is asked, whatever other facts were given, replaced or removed before or after and whatever was asked in between: for any split of the age into age at selection and years since, and for any benefit amount (scaled to the power of the moment; endowments in proportion to the benefit, -1 meaning equal to it; without death benefit, a pure endowment). Giving it again replaces the value, giving None removes it whether or not it was held, each setter returns the object, and a quantity of which no fact was given and which cannot be derived is not found (no value, or an exception).",
 over=["inputs", "histories"],
 quant="all sequences of giving, replacing, removing and asking x quantities x benefit amounts x (x, s)",
 why_tests_cant="The tests never replace or remove facts, and give nearly all with unit benefits; what is held after a history of calls is open-ended.",
 files=FILES,
 mech=[("keys and scaling of stored facts", "recursion.py: Recursion._db_key, _db_put, _get_* and set_*")],
 observe=["Recursion.set_q, set_p, set_e, set_E, set_A, set_IA, set_DA, set_a", "the query of each"],
 technique="TLA+ state machine of the facts held (give, replace, forget, ask), explored by TLC; every history of calls replayed on a real Recursion object and every fact asked back"),
]
