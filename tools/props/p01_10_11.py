PROPS = [dict(
 id="P01", title="Interest rates, discounting and annuities certain are those of compound interest",
 statement="However a constant interest rate is quoted (effective i, discount rate d, discount factor v, force delta, or i_m / d_m convertible m times a year, including the rate 0), an InterestRate - or the interest of any life object, also after set_interest replaced it - reports the same equivalent i, d, v, delta; discounts t years by (1+i)^-t for fractional t; values annuities certain (m payments a year due or in arrears, continuous, finite term or perpetuity) as the sum of the discounted payments; converts between effective and m-thly rates both ways; and doubles the force of interest.",
 over=["inputs", "configurations"],
 quant="all rates >= 0 x ways to quote a rate x frequencies m (0 = continuous) x terms",
 why_tests_cant="The tests use four rates quoted one way; equivalence must hold for every rate, every quotation and frequency, including zero.",
 files=["src/actuarialmath/interest.py", "src/actuarialmath/survival.py"],
 mech=[("InterestRate.__init__ and the v_t function", "interest.py"), ("annuity, mthly, double_force", "interest.py"), ("Life.set_interest", "life.py")],
 observe=["InterestRate(i|d|v|delta|i_m|d_m).i/d/v/delta/v_t", "annuity", "mthly", "double_force"],
 technique="TLA+ specification of a fund and its payments, quarter by quarter, explored by TLC; every query of every state replayed on the real InterestRate"),
 dict(
 id="P10", title="Discrete annuity EPVs and variances are the sum over payment dates",
 statement="For any survival model, interest rate (including 0), issue age, years since selection and term, every annual life annuity - whole life, temporary, deferred, certain-and-life, immediate, increasing, decreasing, and a general benefit function - has expected present value equal to the sum over payment dates of payment times discount times survival probability, scaling with the benefit amount, and the variance of whole life, temporary and immediate annuities is that of the present value of the payments actually made. The insurance/annuity twin and variance identities hold for positive interest. Terms equal to or beyond the limiting age agree with whole life.",
 over=["inputs", "configurations"],
 quant="all survival models x interest rates >= 0 x (x, s) x deferral, term, payment amounts",
 why_tests_cant="The tests sample a few dozen textbook annuities, mostly s=0, positive interest, unit amount.",
 files=["src/actuarialmath/annuity.py", "src/actuarialmath/lifetable.py", "src/actuarialmath/constantforce.py", "src/actuarialmath/mortalitylaws.py"],
 mech=[("Annuity methods built on a_x, insurance twins, pure endowments", "annuity.py"), ("closed forms of constant force", "constantforce.py")],
 observe=["whole_life_annuity", "temporary_annuity", "immediate_annuity", "deferred_annuity", "certain_life_annuity", "increasing_annuity", "decreasing_annuity", "a_x", "Y_x", "annuity_twin", "insurance_twin", "annuity_variance"],
 technique="TLA+ cohort specification explored by TLC; every query of every state replayed on the real objects"),
 dict(
 id="P11", title="Continuous insurances and annuities are the integrals over the moment of death or payment",
 statement="With discrete=False, whole life, term, deferred, endowment, increasing, decreasing and general-benefit insurances payable at the moment of death (first and second moment and variance where offered), and continuous whole life, temporary, deferred, certain, increasing, decreasing and general-benefit annuities (and the variance of whole life and temporary ones) equal the integral of benefit x discount x density, respectively payment rate x discount x survival, for life tables under both fractional-age assumptions, select tables, constant force, uniform, beta and Gompertz-Makeham laws, at any interest rate including 0, age, years since selection, deferral, term and benefit amount; the closed forms of the special laws agree with the integrals.",
 over=["inputs", "configurations"],
 quant="all survival models x interest rates >= 0 x (x, s) x deferral, term, benefit amount, moment",
 why_tests_cant="The tests sample a handful of closed forms with s=0 and unit benefit; the generic integration path and the special-law shortcuts have to agree for every term, deferral, amount and moment.",
 files=["src/actuarialmath/insurance.py", "src/actuarialmath/annuity.py", "src/actuarialmath/constantforce.py", "src/actuarialmath/mortalitylaws.py"],
 mech=[("A_x and a_x continuous branch integrate f and S", "insurance.py, annuity.py"), ("closed forms", "constantforce.py, mortalitylaws.py")],
 observe=["insurance and annuity methods with discrete=False", "Z_x", "Y_x"],
 technique="TLA+ cohort specification (exact within the year for uniform deaths and constant force, Simpson's rule for smooth laws, identities checked as invariants), explored by TLC; every query replayed on the real objects")]
