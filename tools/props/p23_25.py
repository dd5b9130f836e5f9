PROPS = [dict(
 id="P23", title="m-thly insurances and annuities are valued from first principles",
 statement="For any life, interest rate, number m of periods a year (m = 0: benefits at the moment of death, payments made continuously), age and years since selection, Mthly values insurances that pay at the end of the m-th of a year of death and annuities paid at the start of each m-th of a year as the sums over the periods of discount factor times probability (E_x, A_x with any benefit of time and age, deferred or not; term, whole life, endowment and deferred insurance; temporary, whole life, deferred and immediate annuities), first and second moments and variances included and scaled by the benefit; v_m, p_m and q_m give the discount factor, survival and (deferred) death probabilities over m-ths of a year; Z_m lists the present value and probability of each period; insurance_twin, annuity_twin and annuity_variance convert between the two. Terms past the end of life, of zero years, or for whole of life are valued accordingly.",
 over=["inputs", "configurations"],
 quant="all survival models and fractional age assumptions x rates x m in 0, 1, 2, 3, ... x (x, s) x terms, deferrals, benefits, moments",
 why_tests_cant="The tests evaluate Mthly for a handful of values of one model; several methods are never run by them at all.",
 files=["src/actuarialmath/mthly.py"],
 mech=[("sums over periods, whole life differences, twins", "mthly.py")],
 observe=["Mthly.E_x", "Mthly.A_x", "Mthly.term_insurance", "Mthly.whole_life_insurance", "Mthly.endowment_insurance", "Mthly.deferred_insurance", "Mthly.temporary_annuity", "Mthly.whole_life_annuity", "Mthly.deferred_annuity", "Mthly.immediate_annuity", "Mthly.p_m", "Mthly.q_m", "Mthly.v_m", "Mthly.Z_m", "Mthly.insurance_twin", "Mthly.annuity_twin", "Mthly.annuity_variance"],
 technique="TLA+ state machine of a life followed one m-th of a year at a time, explored by TLC with the annual-to-m-thly identities as invariants; every query of every state replayed on real Mthly objects",
 note="The twin conversions need a positive rate."),
 dict(
 id="P24", title="The UDD shortcuts equal the period-by-period values under uniform deaths",
 statement="For any life table, select table or mortality law and any m (0 for continuous), the insurances, annuities, moments and variances of UDD equal those of a life with the same lives at whole ages and deaths uniform over each year of age, valued period by period (variances of annuities at positive rates); alpha(m) and beta(m) have their defining values and interest_frame lists i(m), d(m), i/i(m), d/d(m), alpha(m) and beta(m) for m = 1, 2, 4, 12 and continuous.",
 over=["inputs", "configurations"],
 quant="all survival models x rates (0 included) x m x (x, s) x terms, deferrals, benefits, moments and variances",
 why_tests_cant="The tests use three or four textbook values; the equality with the exact values holds for every table, rate, term and m.",
 files=["src/actuarialmath/udd.py", "src/actuarialmath/mthly.py"],
 mech=[("i/i(m), alpha and beta applied to the annual values", "udd.py")],
 observe=["UDD.whole_life_insurance", "UDD.term_insurance", "UDD.endowment_insurance", "UDD.deferred_insurance", "UDD.whole_life_annuity", "UDD.temporary_annuity", "UDD.deferred_annuity", "UDD.immediate_annuity", "UDD.alpha", "UDD.beta", "UDD.interest_frame"],
 technique="TLA+ state machine of a life followed one m-th of a year at a time, explored by TLC with the UDD identities as invariants; every query of every state replayed on real UDD objects"),
 dict(
 id="P25", title="Woolhouse values are the annual values with two or three correction terms",
 statement="For any life, interest rate (0 included) and m, the Woolhouse whole life annuity is the annual one less (m-1)/2m and, with three terms, less (m^2-1)/12m^2 (mu + delta), where mu is the value given (0 included) or else the exact force, the approximation from the two adjoining one-year survival probabilities, or the user's function, as configured; temporary and deferred annuities are differences of whole life annuities on those who survive (with mu at the start, mu1 at the end of the term), insurances follow from them as twins, nothing is deducted where nobody survives, and a term of zero years is worth nothing. For a smooth law with three terms the result is much nearer to the true m-thly value than with two.",
 over=["inputs", "configurations"],
 quant="all survival models x rates (0 included) x m x two or three terms x source of mu x (x, s) x terms, deferrals, benefits",
 why_tests_cant="The tests compute a few values with one mu; whether given values, end-of-life terms and deferrals are honoured varies over all inputs.",
 files=["src/actuarialmath/woolhouse.py", "src/actuarialmath/mthly.py"],
 mech=[("correction terms and differences of whole life annuities", "woolhouse.py")],
 observe=["Woolhouse.whole_life_annuity", "Woolhouse.temporary_annuity", "Woolhouse.deferred_annuity", "Woolhouse.whole_life_insurance", "Woolhouse.term_insurance", "Woolhouse.endowment_insurance", "Woolhouse.deferred_insurance", "Woolhouse.immediate_annuity", "Woolhouse.mu_x"],
 technique="TLA+ specification of a life followed to the end of life, explored by TLC, with the accuracy of the formula for a smooth law as invariant; every query replayed on real Woolhouse objects",
 note="The approximated force is only asked where both adjoining survival probabilities exist and are positive.")]
