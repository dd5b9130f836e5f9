T = "TLA+ life machine explored by TLC; every query of every state replayed on the real objects"
PROPS = [
dict(id="P02", title="One survival function determines all the others",
 statement="A life given any one of the survival function, number of lives, force of mortality or lifetime density (or any consistent combination, or given again after other functions) reports the same survival and deferred mortality probabilities, densities, forces, and ratios of lives and deaths as the law those functions describe, at every age, duration since selection and time. Functions that depend on the selection age as well as on the duration since selection are honoured.",
 over=["inputs", "configurations"], quant="smooth laws (constant, uniform, beta, Gompertz, Makeham, select force A+Bx+Cs) x which functions are given x (x, s) x times and deferrals, whole and fractional",
 why_tests_cant="The tests pass one or two functions for one law each with s=0; which of the four functions are given, with which selection ages and times, is an open-ended combination.",
 files=["src/actuarialmath/survival.py", "src/actuarialmath/actuarial.py"],
 mech=[("set_survival derives the missing functions by differentiation and integration", "survival.py set_survival"), ("p_x q_x f_x mu_x l_x d_x on top of them", "survival.py")],
 observe=["p_x", "q_x", "f_x", "mu_x", "l_x", "d_x"], technique=T),
dict(id="P03", title="Parametric mortality laws agree with their formulas at any age and time",
 statement="Constant force, Uniform, Beta, Gompertz and Makeham laws report the survival, deferred mortality, density, force, lives and pure-endowment values of their defining formula for every age, duration since selection, fractional age and time. At and past the limiting age nobody survives, and selection age and years since selection matter only through their sum.",
 over=["inputs", "configurations"], quant="laws with fixed and seed-drawn parameters x (x, s) x fractional start x deferral and term, before, at and past the limiting age",
 why_tests_cant="Tests take a handful of points per law, none past the limiting age and none starting at a fractional age.",
 files=["src/actuarialmath/mortalitylaws.py", "src/actuarialmath/constantforce.py", "src/actuarialmath/survival.py"],
 mech=[("l_r p_r q_r mu_r f_r of each law", "mortalitylaws.py"), ("survival functions given to set_survival by each constructor", "mortalitylaws.py, constantforce.py")],
 observe=["p_x", "q_x", "f_x", "mu_x", "l_x", "d_x", "p_r", "q_r", "f_r", "mu_r", "l_r", "E_r"], technique=T),
dict(id="P04", title="Expected future lifetimes and their variances are those of the distribution",
 statement="For every survival model, the curtate and complete expectation of life, their second moments and variances, whole life or limited to a term, equal the moments of the (limited) future lifetime distribution from the given age and duration. Limiting beyond the last age equals no limit, and the fractional-age expectation, whole life or limited to any fractional term, agrees with the fractional-age assumption; converting between complete and curtate under uniform deaths shifts the mean by one half and the variance by one twelfth.",
 over=["inputs", "configurations"], quant="life tables (uniform deaths or constant force), select models, constant force, uniform, beta, Makeham laws, select forces x (x, s) x limits x curtate or complete x moments 1, 2, variance",
 why_tests_cant="Tests compute some thirty expectations; nearly none limited with s > 0, and variances only of whole lifetimes.",
 files=["src/actuarialmath/lifetime.py", "src/actuarialmath/fractional.py", "src/actuarialmath/lifetable.py", "src/actuarialmath/constantforce.py", "src/actuarialmath/mortalitylaws.py"],
 mech=[("e_x by summation or integration", "lifetime.py e_x"), ("closed forms of laws and tables", "lifetable.py, constantforce.py, mortalitylaws.py"), ("limited fractional expectation", "fractional.py e_r")],
 observe=["e_x", "e_r", "e_approximate"], technique=T),
dict(id="P05", title="Fractional-age values follow the stated assumption within each year",
 statement="Under uniform distribution of deaths or constant force between whole ages, survival, deferred mortality, force, density, lives and pure endowments starting from any fractional age and lasting any fractional time, within a year or across several, equal those of the lives interpolated linearly (or geometrically) inside each year of age. A life table's own survival, density and force functions follow the same assumption.",
 over=["inputs", "configurations"], quant="life tables and select models x assumption x (x, s) x fractional starts (also above one year) x fractional times and deferrals; force and density strictly inside a year",
 why_tests_cant="Tests cover a few fractional points inside one year; intervals that start in one year and end in another with every start, deferral and term cannot be sampled.",
 files=["src/actuarialmath/fractional.py", "src/actuarialmath/lifetable.py"],
 mech=[("l_r p_r q_r mu_r f_r E_r by assumption", "fractional.py"), ("survival functions of a life table", "lifetable.py __init__")],
 observe=["p_r", "q_r", "mu_r", "f_r", "l_r", "E_r", "S", "f", "mu"], technique=T),
dict(id="P06", title="A life table completes every cell that follows from those given",
 statement="Given any cells of the lives, deaths, mortality and survival columns of a consistent table, in one or several calls, the completed table contains every cell that follows from them by the life table identities, with the true value, and never alters a given cell. When nothing given fixes the number of lives, the radix is the number of lives at the youngest age.",
 over=["inputs", "histories"], quant="all subsets of the cells of three-year tables (closed with nobody left, and open) x splitting the cells over two calls with or without completion between them",
 why_tests_cant="There are tens of thousands of subsets of cells even of a three-year table, and the order of derivation differs for each; tests try five.",
 files=["src/actuarialmath/lifetable.py"],
 mech=[("fixpoint iteration over the four columns", "lifetable.py fill_table"), ("merging of columns and age range", "lifetable.py set_table")],
 observe=["set_table", "fill_table", "frame", "__getitem__"],
 technique="TLA+ specification of table completion as a fixpoint, all subsets explored by TLC and replayed on real life tables"),
dict(id="P07", title="Life table probabilities are ratios of lives, also past the last age",
 statement="For every life table, age, years since selection, deferral and term, survival is the ratio of lives at the two ages, deferred mortality is the ratio of deaths between the two ages to lives at the start, and these sum to one over the lifetime; the force of mortality listed for a year of age is minus the logarithm of its survival probability. Past the last age nobody survives: everyone alive at the start has died and nobody dies later.",
 over=["inputs", "configurations"], quant="life tables given as lives, rates, or a mixture, closed or open x (x, s) x deferral x term, before, at and far past the last age",
 why_tests_cant="Tests query a few ages in the middle of published tables; none ask past the last age or with deferral and selection together.",
 files=["src/actuarialmath/lifetable.py", "src/actuarialmath/survival.py", "src/actuarialmath/sult.py"],
 mech=[("l_x d_x p_x q_x from the table", "lifetable.py")],
 observe=["p_x", "q_x", "l_x", "d_x", "E_x", "mu_x"], technique=T),
]
