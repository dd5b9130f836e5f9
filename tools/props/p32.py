PROPS = [dict(
 id="P32", title="Plots draw the values they stand for",
 statement="Z_plot, Y_plot and L_plot of a life [x] selected s years ago draw, for every time of death from issue to stop (whole years when discrete, otherwise along the whole continuous axis), the present value of the given benefit, of the annuity paying the given benefit, or of the loss on the given contract (expenses, term and endowment included) if death came at that time; benefits are taken at age x and time s+t. A marked time T is drawn at its own present value, which is the value returned; without T nothing is marked and nothing returned. With dual=True the survival probabilities drawn, along the axis and at T, are those of [x]+s, for every survival model including life tables and select tables on a continuous axis. V_plot draws the reserves on record, one point for every year of the term.",
 over=["inputs", "configurations"],
 quant="all survival models x (x, s) x rates x benefits x contracts x discrete or continuous x stop x marked time or none x with or without survival probabilities",
 why_tests_cant="The tests call plots at most to see that they do not raise; what is drawn is looked at by people.",
 files=["src/actuarialmath/insurance.py", "src/actuarialmath/annuity.py", "src/actuarialmath/policyvalues.py", "src/actuarialmath/reserves.py"],
 mech=[("heights, marked point and survival line computed per time step", "insurance.py, annuity.py, policyvalues.py"), ("V_plot over the recorded reserves", "reserves.py")],
 observe=["Insurance.Z_plot", "Annuity.Y_plot", "PolicyValues.L_plot", "Reserves.V_plot", "Insurance.Z_from_t", "Annuity.Y_from_t", "PolicyValues.L_from_t"],
 technique="TLA+ state machine of the time of death moving on year by year with the heights of the three present values, explored by TLC (fund identity, monotonicity and end-of-term invariants); for every state and query the drawn artists of the real plots (bars, marked point, survival line) are compared with the heights of the specification",
 note="Drawn on matplotlib's Agg backend; heights, marked points and lines are read back from the axes, at ten times of a continuous axis and at all times of a discrete one. Colours, labels and titles are not judged. The private plot helpers (_Z_curve and the like) are not covered.")]
