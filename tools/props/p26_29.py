PROPS = [
 dict(
 id="P26", title="Extra risk adjusts survival and mortality exactly as named",
 statement="For any life and any amount of extra risk, ExtraRisk gives one-year survival and mortality probabilities adjusted as the risk is named: ADD_FORCE multiplies survival by exp(-extra), MULTIPLY_FORCE raises survival to the power extra, ADD_AGE uses the probabilities of a life that many years older, MULTIPLY_RATE multiplies the mortality rate (a probability, so at most 1), and no risk leaves the life unchanged; survival and mortality always add to 1. Indexing lists the adjusted probabilities by age for the ages of the underlying life, tables built from them have the impaired survival, and unknown risks are refused.",
 over=["inputs", "configurations"],
 quant="all lives x kinds of risk x extra amounts x (x, s)",
 why_tests_cant="The tests adjust two lives by one amount each; the adjustment has to hold for every life, kind, amount and age.",
 files=["src/actuarialmath/extrarisk.py"],
 mech=[("p_x and q_x adjusted by kind of risk", "extrarisk.py: ExtraRisk.p_x, q_x, __getitem__")],
 observe=["ExtraRisk.p_x", "ExtraRisk.q_x", "ExtraRisk.__getitem__", "ExtraRisk constructor and set_risk"],
 technique="TLA+ specification of lives followed year by year under an added cause of risk, explored by TLC; every query replayed on real ExtraRisk objects and on tables built from them"),
 dict(
 id="P27", title="The Standard Ultimate Life Table lists exact values to its printed precision",
 statement="For any interest rate, radix, survival function and range of ages, each cell of SULT.frame (l_x, q_x, a_x, A_x, 2A_x, ten- and twenty-year annuities and endowment insurances, and five-, ten- and twenty-year pure endowments, for exactly the ages of the range) is the exact value of that quantity rounded to the printed decimals, and indexing by 'q', 'p', 'a', 'A' returns the exact values by age.",
 over=["inputs", "configurations"],
 quant="all SULT parameters x ages x columns",
 why_tests_cant="The tests print the frame without checking its cells; every cell of every parameterisation has to be right.",
 files=["src/actuarialmath/sult.py", "src/actuarialmath/lifetable.py"],
 mech=[("columns of the frame computed from the filled table", "sult.py: SULT.frame, __getitem__")],
 observe=["SULT.frame", "SULT.__getitem__"],
 technique="TLA+ specification of a life followed year by year under Makeham's law and other laws, explored by TLC; every cell compared with the real frame"),
 dict(
 id="P28", title="Moments and quantiles of portfolios are those of the distributions they describe",
 statement="Life's probability laws agree with the distributions they name, for all probabilities and sizes: bernoulli and binomial mean and variance; mixture (mean and variance of the number of events among N lives whose common chance is p1 with probability p, else p2) and conditional_variance (the same variance, as variance of the mean plus mean of the variance); variance of a linear combination and covariance from a joint distribution; portfolio_percentile and portfolio_cdf are inverse to each other and those of a normal total of N independent claims; quantiles_frame lists z by probability, both to three decimals. Probabilities outside [0, 1] and empty portfolios are refused.",
 over=["inputs"],
 quant="all probabilities x portfolio sizes x payments x joint distributions x quantiles",
 why_tests_cant="The tests call each law once or twice with textbook numbers; edge probabilities, common factors and sizes are open-ended.",
 files=["src/actuarialmath/life.py"],
 mech=[("closed forms of each law", "life.py: Life.bernoulli ... quantiles_frame")],
 observe=["Life.bernoulli", "Life.binomial", "Life.mixture", "Life.conditional_variance", "Life.variance", "Life.covariance", "Life.portfolio_percentile", "Life.portfolio_cdf", "Life.quantiles_frame"],
 technique="TLA+ state machine of a portfolio taking in one life at a time, its distribution convolved exactly, explored by TLC; every moment replayed on the real static methods"),
 dict(
 id="P29", title="Numerical helpers return the root, derivative, integral and term they name",
 statement="For any function with a known answer: solve returns the root from a single guess or from a range of guesses (also by minimising the absolute difference) and, where there are several roots, the same one whatever the order of the guesses, evaluating the function at the root last so that an object changed by the function is left at the solution; derivative and integral (to infinity too) return the derivative and the integral; isclose compares to the tolerance given. add_term adds terms, for life if either is; max_term returns the number of years that cover of t years (or for life) starting u years hence runs before the oldest age.",
 over=["inputs"],
 quant="all polynomials and exponentials x points x intervals x guesses; all ages, terms and deferrals x oldest ages",
 why_tests_cant="The tests use each helper inside a few worked problems; terms beyond the oldest age, guesses in any order and side effects are not sampled.",
 files=["src/actuarialmath/actuarial.py"],
 mech=[("wrappers of scipy", "actuarial.py: Actuarial.solve, derivative, integral"), ("terms", "actuarial.py: add_term, max_term")],
 observe=["Actuarial.solve", "Actuarial.derivative", "Actuarial.integral", "Actuarial.isclose", "Actuarial.add_term", "Actuarial.max_term"],
 technique="TLA+ state machines of a term counted year by year and of a polynomial built coefficient by coefficient with exact derivative and antiderivative, explored by TLC; every query replayed on the real helpers",
 note="solve: monotone functions."),
]
