"""How one row of the specification is executed on a real object."""
import itertools
import math
import random
from fractions import Fraction
import actuarialmath as am
import worlds


class Skip(Exception):
    """this realisation does not offer the call"""


def linear(v):
    c0, c1, c2 = v
    return lambda x, t: c0 + c1 * t + c2 * x


def contract(v):
    v = dict(v)
    n = v.pop("renewed", None)
    c = am.Contract(**{k: (x if isinstance(x, bool) else int(x) if k == "T" else float(x)) for k, x in v.items()})
    return c.renewals(n) if n else c


def conv(a):
    out = {}
    for k, v in a.items():
        if k == "benefit" and isinstance(v, list):
            out[k] = linear(v)
        elif k == "contract":
            out[k] = contract(v)
        elif isinstance(v, str):
            try:
                f = float(v)
                out[k] = int(f) if f == int(f) and "." not in v else f
            except ValueError:
                out[k] = v
        else:
            out[k] = v
    return out


def obj(row, real, w, cache):
    """the realisation, reused across rows, with the interest rate of the row"""
    if "o" not in cache:
        cache["o"] = worlds.REALS[real](w)
        cache["i"] = None
    if "i" in row and cache["i"] != row["i"]:
        cache["o"].set_interest(i=float(row["i"]))
        cache["i"] = row["i"]
    if "curve" in row and cache["i"] != row["curve"]:
        cache["o"].set_interest(v_t=discount(row["curve"]))
        cache["i"] = row["curve"]
    return cache["o"]


def discount(c):
    """the discount function v(t) of a curve of the specification"""
    n = {k: float(v) if isinstance(v, str) and k != "id" else v for k, v in c.items()}
    if c["id"] == "flat":
        return lambda t: (1 + n["i"]) ** -t
    if c["id"] == "hyper":
        return lambda t: (1 + n["a"] * t) ** -n["p"]
    if c["id"] == "spot":
        return lambda t: (1 + n["s0"] + n["s1"] * t) ** -t
    f = [float(v) for v in c["f"]]

    def v(t):
        k = math.floor(t)
        out = 1.0
        for j in range(k):
            out /= 1 + f[min(j, len(f) - 1)]
        return out / (1 + f[min(k, len(f) - 1)]) ** (t - k)
    return v


MU_OF = {"approx": True, "exact": False, "fun": lambda x, s: 0.01 + 0.001 * x + 0.002 * s}


def wrapped(row, real, w, cache):
    """the life itself, or the m'thly calculator of the row around it"""
    o = obj(row, real, w, cache)
    if "cls" in row:
        o = getattr(am, row["cls"])(m=row["m"], life=o, **{k: MU_OF.get(v, v) for k, v in row.get("ctor", {}).items()})
    return o


def default(row, real, w, cache):
    o = wrapped(row, real, w, cache)
    a = conv(row["a"])
    if real == "uniform" and "cls" not in row and row["c"] == "term_insurance":
        a.setdefault("discrete", True)     # Uniform's default is continuous
    return getattr(o, row["c"])(**a)


SPECIAL = {}


def special(name):
    def deco(f):
        SPECIAL[name] = f
        return f
    return deco


@special("S")
def S_fun(row, real, w, cache):
    a = conv(row["a"])
    return obj(row, real, w, cache).S(a["x"], a["s"], a["t"])


@special("f")
def f_fun(row, real, w, cache):
    a = conv(row["a"])
    return obj(row, real, w, cache).f(a["x"], a["s"], a["t"])


@special("mu")
def mu_fun(row, real, w, cache):
    a = conv(row["a"])
    return obj(row, real, w, cache).mu(a["x"], a["t"])


@special("dt_ratio")
def dt_ratio(row, real, w, cache):
    o, a = obj(row, real, w, cache), row["a"]
    return o.d_x(a["x"], s=a["s"], t=a["t"]) / o.l_x(a["x"], s=a["s"])


@special("mu_year")
def mu_year(row, real, w, cache):
    a = row["a"]
    return math.exp(-obj(row, real, w, cache).mu_x(a["x"], s=a["s"], t=a["t"]))


@special("sum_q")
def sum_q(row, real, w, cache):
    o, a = obj(row, real, w, cache), row["a"]
    return sum(o.q_x(a["x"], s=a["s"], u=k) for k in range(a["n"]))


def columns(tab, x0):
    """{label: {age: value}} of the given cells, leaving empty columns out"""
    out = {k: {x0 + j: float(v) for j, v in enumerate(col) if v != "none"} for k, col in tab.items()}
    return {k: v for k, v in out.items() if v}


@special("fill")
def fill(row, real, w, cache):
    """completes a table; says which cells are missing, wrong or altered"""
    a = row["a"]
    life = am.LifeTable()
    first, given = columns(a["first"], a["x0"]), columns(a["given"], a["x0"])
    if first:
        life.set_table(**first, fill=a["fillfirst"])
    life.set_table(**given)
    must, may = columns(a["must"], a["x0"]), columns(a["may"], a["x0"])
    for label in "ldqp":
        got = life[label]
        for x, v in must.get(label, {}).items():
            if x not in got:
                return f"missing {label}[{x}]"
        for x, v in got.items():
            if x in may[label] and not abs(v - may[label][x]) <= 2e-6 * max(1, abs(may[label][x])):
                return f"wrong {label}[{x}] = {v}, should be {may[label][x]}"
        for part in (first, given):
            for x, v in part.get(label, {}).items():
                if got[x] != v:
                    return f"given {label}[{x}] altered to {got[x]}"
    frame = life.frame()
    for label in must:
        for x, v in must[label].items():
            if not abs(frame[label][x] - v) <= 2e-6 * max(1, abs(v)):
                return f"frame differs at {label}[{x}]"
    return "ok"


@special("e_r")
def e_r(row, real, w, cache):
    if real in ("res_beta", "fr_S", "fr_mu"):
        raise Skip            # interpolates between integer ages by design, the model is a smooth law
    return default(row, real, w, cache)


def aggregate(w, o):
    """lives at different selection ages are comparable"""
    if w["kind"] == "selmu" and "l" not in getattr(o, "_forms", "l"):
        raise Skip


@special("l_ratio")
def l_ratio(row, real, w, cache):
    o, a = obj(row, real, w, cache), row["a"]
    aggregate(w, o)
    return o.l_x(a["x"], s=a["s"]) / o.l_x(a["x0"], s=a["s0"])


@special("lr_ratio")
def lr_ratio(row, real, w, cache):
    o, a = obj(row, real, w, cache), conv(row["a"])
    return o.l_r(a["x"], s=a["s"], r=a["r"]) / o.l_r(a["x"], s=a["s"], r=0)


@special("l_abs0")
def l_abs0(row, real, w, cache):
    """lives past the limiting age, relative to the lives at the start"""
    o, a = obj(row, real, w, cache), conv(row["a"])
    return o.l_r(a["x"], s=a["s"], r=a["t"]) / o.l_r(a["x"], s=a["s"], r=0)


@special("d_ratio")
def d_ratio(row, real, w, cache):
    o, a = obj(row, real, w, cache), row["a"]
    aggregate(w, o)
    return o.d_x(a["x"], s=a["s"]) / o.l_x(a["x0"], s=a["s0"])


# ---- interest
def _kw(q):
    return {k: (v if k == "m" else float(v)) for k, v in q.items()}


def interest(row, real):
    q = _kw(row["a"]["q"])
    if real == "life":
        return am.Life().set_interest(**q).interest
    if real == "changed":       # an object whose rate was changed
        o = am.LifeTable().set_interest(delta=0.3)
        o.interest.v_t(3)
        return o.set_interest(**q).interest
    return am.Interest(**q)


@special("rate")
def rate(row, real, w, cache):
    return getattr(interest(row, real), row["a"]["get"])


@special("untold")
def untold(row, real, w, cache):
    """an object never told a rate of interest"""
    o = {"interest": am.Life, "life": lambda: am.LifeTable(), "changed": lambda: am.Reserves().set_survival(mu=lambda x, t: .1)}[real]()
    return [o.interest.i, o.interest.v, o.interest.d, o.interest.delta, o.interest.v_t(7)]


@special("interest.v_t")
def v_of_t(row, real, w, cache):
    return obj(row, real, w, cache).interest.v_t(float(row["a"]["t"]))


# ---- plots
def drawn(ax):
    """heights of the bars of a plot, by the time they stand for"""
    return {round(b.get_x() + b.get_width() / 2, 9): (b.get_height(), b.get_width()) for b in ax.patches}


def thinned(bar, at):
    """draw only the bars closest to the asked times (a thousand take most of a second)"""
    def fewer(x, height, *args, **kw):
        x, height = list(x), list(height)
        if len(x) < 200 or len(x) != len(height):
            return bar(x, height, *args, **kw)
        keep = sorted({min(range(len(x)), key=lambda k: abs(x[k] - t)) for t in at} | {0, len(x) - 1})
        return bar([x[k] for k in keep], [height[k] for k in keep], *args, **kw)
    return fewer


def near(bars, t):
    k = min(bars, key=lambda c: abs(c - t))
    return bars[k][0] if abs(k - t) < 1e-6 else None


def point(ax):
    """the marked point: the only line that has a single point"""
    one = [l for l in ax.get_lines() if len(l.get_xdata()) == 1]
    return [float(one[0].get_xdata()[0]), float(one[0].get_ydata()[0])] if len(one) == 1 else [] if not one else ["several"]


@special("plot")
def plot(row, real, w, cache):
    import matplotlib.pyplot as plt
    o, a = obj(row, real, w, cache), row["a"]
    fig, ax = plt.subplots()
    ax.bar = thinned(ax.bar, [float(t) for t in a["at"]])
    try:
        ret = getattr(o, a["fn"])(ax=ax, **conv(a["kw"]))
        bars = drawn(ax)
        twin = [b for b in fig.axes if b is not ax]
        out = dict(ret="none" if ret is None else ret, bars=[near(bars, float(t)) for t in a["at"]], dot=point(ax), surv=[], sdot=[])
        if twin:
            long = [l for l in twin[0].get_lines() if len(l.get_xdata()) > 1]
            line = {round(float(x), 9): (float(y), 0) for x, y in zip(*long[0].get_data(orig=True))}
            out["surv"] = [near(line, float(t)) for t in a["at"]]
            out["sdot"] = point(twin[0])
        if row["e"]["ret"] == "none" and ret is None:
            out["ret"] = None
        return out
    finally:
        plt.close("all")


@special("vplot")
def vplot(row, real, w, cache):
    import matplotlib.pyplot as plt
    o, a = worlds.REALS[real](w).set_interest(i=float(row["i"])), row["a"]
    V = {t: v for t, v in a["V"]}
    o.set_reserves(T=a["T"], endowment=V[a["T"]], V={t: v for t, v in V.items() if 0 < t < a["T"]})
    fig, ax = plt.subplots()
    try:
        o.V_plot(ax=ax)
        l = ax.get_lines()[0]
        return dict(x=[float(v) for v in l.get_xdata()], y=[float(v) for v in l.get_ydata()])
    finally:
        plt.close("all")


@special("v_t")
def v_t(row, real, w, cache):
    return interest(row, real).v_t(float(row["a"]["t"]))


@special("annuity")
def annuity_certain(row, real, w, cache):
    a = conv(row["a"])
    return interest(row, real).annuity(t=a["t"], m=a["m"], due=a["due"])


@special("mthly")
def mthly(row, real, w, cache):
    return (am.Interest if real == "interest" else interest(row, real)).mthly(m=row["a"]["m"], **_kw(row["a"]["kw"]))


@special("double_force")
def double_force(row, real, w, cache):
    return (am.Interest if real == "interest" else interest(row, real)).double_force(**_kw(row["a"]["kw"]))


# ---- contracts and gross premiums
@special("gross_own")
def gross_own(row, real, w, cache):
    o, a = obj(row, real, w, cache), conv(row["a"])
    c, k = a["contract"], dict(x=a["x"], s=a["s"])
    if a["n"] < 0:
        A, an, E = o.whole_life_insurance(**k), o.whole_life_annuity(**k), 0
    else:
        A, an, E = o.term_insurance(t=a["n"], discrete=True, **k), o.temporary_annuity(t=a["n"], **k), o.E_x(t=a["n"], **k)
    return o.gross_premium(a=an, A=A, **c.premium_terms, **(dict(E=E, endowment=c.endowment) if c.endowment else {}))


def _terms(kw):
    return {k: v if k in ("discrete", "T") else float(v) for k, v in kw.items()}


def _look(c):
    f = ("premium", "initial_policy", "initial_premium", "renewal_policy", "renewal_premium", "settlement_policy", "benefit",
         "endowment", "T", "discrete")
    d = {k: getattr(c, k) for k in f}
    if d["T"] < 0:
        d["T"] = am.Contract.WHOLE       # any negative term means whole life
    return dict(profit=c.renewal_profit, cost=c.initial_cost, claims=c.claims_cost, terms=c.premium_terms, fields=d)


@special("contract")
def contract_history(row, real, w, cache):
    c = orig = None
    for op in row["a"]["hist"]:
        if op["op"] == "make":
            c = orig = am.Contract(**_terms(op["kw"]))
        elif op["op"] == "set":
            c.set_contract(**_terms(op["kw"]))
        else:
            c = c.renewals(op["t"]) if op["t"] else c.renewals()
    return dict(now=_look(c), orig=_look(orig))


# ---- reserves tables
def _num(v):
    f = float(v)
    return int(f) if f == int(f) else f


@special("reserves")
def reserves(row, real, w, cache):
    a = row["a"]
    o = worlds.REALS[real](w).set_interest(i=float(row["i"]))
    for op in a["hist"]:
        if op["op"] == "set":
            kw = {k: op[k] for k in ("T", "endowment") if k in op}
            if op["V"]:
                kw["V"] = {t: float(v) for t, v in op["V"]}
            o.set_reserves(**kw)
        else:
            o.fill_reserves(op["x"], s=op["s"], reserve_benefit=op["ret"], contract=contract(op["contract"]))
    out = []
    for q in a["asks"]:
        b0, b1 = _num(q["b0"]), _num(q["b1"])
        kw = dict(x=a["x"], s=a["s"], t=q["t"], premium=_num(q["premium"]), benefit=lambda t: b0 + b1 * t,
                  reserve_benefit=q["ret"], per_premium=_num(q["per_premium"]), per_policy=_num(q["per_policy"]))
        out.append([o.t_V(**kw), o.t_V_forward(**kw), o.t_V_backward(**kw)])
    f = o.reserves_frame()["V_t"]
    return dict(table={k: v for k, v in f.items()}, asks=out)


@special("interim")
def interim(row, real, w, cache):
    a = row["a"]
    o = worlds.REALS[real](w).set_interest(i=float(row["i"]))
    n, r, b = a["n"], _num(a["r"]), a["b"]
    o.set_reserves(T=n + 9, V={n: float(a["V0"]), n + 1: float(a["V1"])})
    kw = dict(x=a["x"], s=a["s"], benefit=b)
    return [o.r_V_forward(r=r, premium=float(a["premium"]), **kw), o.r_V_backward(r=r, **kw),
            o.r_V_forward(r=r + 3, **kw), o.r_V_backward(r=r + 3, **kw),     # no reserves on record then
            o.r_V_backward(r=r + 1, **kw), o.r_V_forward(r=r - 1, **kw) if r >= 1 and n >= 2 else None]


# ---- payments m times a year
@special("Z_m")
def Z_m(row, real, w, cache):
    f = wrapped(row, real, w, cache).Z_m(**conv(row["a"]))
    return dict(Z=list(f["Z"]), q=list(f["q"]), m=[int(k) for k in f.index])


@special("udd_alpha")
def udd_alpha(row, real, w, cache):
    a = conv(row["a"])
    return [am.UDD.alpha(**a), am.UDD.beta(**a)]


@special("udd_frame")
def udd_frame(row, real, w, cache):
    f = am.UDD.interest_frame(i=float(row["a"]["i"]))
    return {str(k): list(f.loc[k]) for k in f.index}


# ---- extra risk
def _risk(row, real, w, cache):
    a = conv(row["a"])
    o = obj(row, real, w, cache)
    return a, am.ExtraRisk(life=o, risk=row["a"]["risk"], extra=a["extra"])


@special("risk_p")
def risk_p(row, real, w, cache):
    a, r = _risk(row, real, w, cache)
    return r.p_x(a["x"], s=a["s"]) if a["s"] else r.p_x(a["x"])


@special("risk_q")
def risk_q(row, real, w, cache):
    a, r = _risk(row, real, w, cache)
    return r.q_x(a["x"], s=a["s"]) if a["s"] else r.q_x(a["x"])


@special("risk_get")
def risk_get(row, real, w, cache):
    a, r = _risk(row, real, w, cache)
    return dict(p=r["p"][a["x"]], q=r["q"][a["x"]])


@special("risk_table")
def risk_table(row, real, w, cache):
    a, r = _risk(row, real, w, cache)
    rates = {x: v for x, v in r[a["form"]].items() if a["x"] <= x < a["x"] + a["n"]}
    return am.LifeTable().set_table(radix=10**6, **{a["form"]: rates}).p_x(a["x"], t=a["t"])


@special("risk_bad")
def risk_bad(row, real, w, cache):
    try:
        _risk(row, real, w, cache)
    except Exception as e:
        return type(e).__name__


# ---- the standard ultimate life table
SULT_COLS = dict(A2="2A_x", a10="a_x:10", A10="A_x:10", a20="a_x:20", A20="A_x:20", E5="5_E_x", E10="10_E_x", E20="20_E_x")


def _makeham_S(w):
    A, B, c = (float(w[k]) for k in "ABc")
    return lambda x, t: math.exp(-A * t - B * c**x * (c**t - 1) / math.log(c))


def _sult(row, real, w, cache):
    key = "sult", row["i"]
    if key not in cache:
        i = float(row["i"])
        if w["kind"] == "table":
            o = worlds.REALS["sult"](w)
            cache[key] = o.set_interest(i=i)
        elif w["world"] == "SULT0":
            cache[key] = am.SULT() if i == 0.05 else am.SULT(i=i)
        elif w["world"] == "SULT45":
            cache[key] = am.SULT(i=i, minage=45)
        else:
            cache[key] = am.SULT(i=i, minage=30, S=_makeham_S(w))
    return cache[key]


@special("sult_cell")
def sult_cell(row, real, w, cache):
    a = row["a"]
    key = "sult_frame", row["i"]
    if key not in cache:
        cache[key] = _sult(row, real, w, cache).frame(minage=0, maxage=200)
    v = cache[key][SULT_COLS.get(a["col"], a["col"])].loc[a["x"]]
    if not isinstance(v, str) or len(v.partition(".")[2]) != a["digits"]:
        return f"{v!r} does not show {a['digits']} decimals"
    return float(v)


@special("sult_get")
def sult_get(row, real, w, cache):
    out = {}
    for k in row["e"]:
        key = "sult_get", row["i"], k
        if key not in cache:
            cache[key] = _sult(row, real, w, cache)[k]
        out[k] = cache[key][row["a"]["x"]]
    return out


@special("sult_index")
def sult_index(row, real, w, cache):
    ages = [int(x) for x in _sult(row, real, w, cache).frame(**row["a"]).index]
    return [ages[0], ages[-1]] if ages == list(range(ages[0], ages[-1] + 1)) else ages


# ---- probability laws and numerical helpers
def _life(name):
    def f(row, real, w, cache):
        a = {k: v if isinstance(v, (bool, int)) else float(v) for k, v in (row["a"] or {}).items()}
        return getattr(am.Life, name)(**a)
    return f


for _c, _n in dict(binomial="binomial", mixture="mixture", conditional_variance="conditional_variance", bernoulli="bernoulli", covariance="covariance",
                   variance="variance", percentile="portfolio_percentile", cdf="portfolio_cdf").items():
    SPECIAL["life_" + _c] = _life(_n)


@special("life_quantiles")
def life_quantiles(row, real, w, cache):
    q = (row["a"] or {}).get("quantiles") if isinstance(row["a"], dict) else None
    f = am.Life.quantiles_frame([float(v) for v in q]) if q else am.Life.quantiles_frame()
    return [[float(z), float(f[z].iloc[0])] for z in f.columns]


@special("num_max_term")
def num_max_term(row, real, w, cache):
    a = dict(row["a"])
    o = am.LifeTable().set_table(q={y: 0.1 for y in range(a["old"])} | {a["old"]: 1.0}, minage=0, maxage=a.pop("old"))
    return o.max_term(**a)


@special("num_add_term")
def num_add_term(row, real, w, cache):
    return am.Life().add_term(**row["a"])


def _fun(a):
    if "exp" in a:
        f = float(a["exp"])
        return lambda x: math.exp(f * x)
    c = [float(v) for v in a["poly"]]
    return lambda x: sum(v * x**j for j, v in enumerate(c))


@special("num_derivative")
def num_derivative(row, real, w, cache):
    return am.Actuarial.derivative(_fun(row["a"]), float(row["a"]["x"]))


@special("num_integral")
def num_integral(row, real, w, cache):
    return am.Actuarial.integral(_fun(row["a"]), float(row["a"]["lower"]), float(row["a"]["upper"]))


def _grid(g):
    return [float(v) for v in g] if isinstance(g, list) else float(g)


@special("num_solve")
def num_solve(row, real, w, cache):
    a = row["a"]
    return am.Actuarial.solve(_fun(a), float(a["target"]), _grid(a["grid"]), **({"mad": True} if a.get("mad") else {}))


@special("num_orders")
def num_orders(row, real, w, cache):
    """the same guesses in every order: number of different answers, and how many of them are no root"""
    a, f = row["a"], _fun(row["a"])
    zs = [am.Actuarial.solve(f, float(a["target"]), [float(z) for z in g]) for g in itertools.permutations(a["grid"])]
    rs = [float(z) for z in a["roots"]]
    return dict(answers=len({min(range(len(rs)), key=lambda j: abs(z - rs[j])) for z in zs}), off=max(min(abs(z - r) for r in rs) for z in zs))


@special("num_yield")
def num_yield(row, real, w, cache):
    a, o = row["a"], am.Life()
    v = o.solve(lambda i: o.set_interest(i=i).interest.annuity(t=a["n"], due=False), float(a["price"]), _grid(a["grid"]))
    return dict(root=v, left=o.interest.i)


@special("num_isclose")
def num_isclose(row, real, w, cache):
    return am.Actuarial.isclose(**{k: float(v) for k, v in row["a"].items()})


# ---- select and ultimate tables
def _seltable(row, w, cache):
    if "sel" in cache:
        return cache["sel"]
    h = w["hist"]
    rnd = random.Random(h["order"])
    fill = {"radix": float(h["radix"])} if h["radix"] else {}
    given = {}
    for k, j, d, v in h["given"]:
        given.setdefault(k, {}).setdefault((j, d), float(v))
    kinds = sorted(given)
    rnd.shuffle(kinds)
    if h["style"] == "table":
        o = am.SelectLife(**({"periods": h["per"]} if rnd.random() < .5 else {})).set_interest(i=float(h["i"]))
        tabs = {}
        for k in kinds:
            rows = list(range(1, h["rows"] + 1))
            if rnd.random() < .5:       # rows of which nothing is known may be left out
                rows = [j for j in rows if any((j, d) in given[k] for d in range(h["per"] + 1))]
            rnd.shuffle(rows)
            tabs[k] = {h["x0"] + j - 1: [given[k].get((j, d)) for d in range(h["per"] + 1)] for j in rows}
        if rnd.random() < .3:
            o.set_table(fill=False, **tabs).fill_table(**fill)
        else:
            o.set_table(**tabs, **fill)
    else:
        o = am.SelectLife(periods=h["per"]).set_interest(i=float(h["i"]))
        cols = sorted({(k, d) for k in kinds for (j, d) in given[k]})
        if rnd.random() < .5:           # several kinds of column at once
            cols = [([k for k, e in cols if e == d], d) for d in sorted({d for _, d in cols})]
        else:
            cols = [([k], d) for k, d in cols]
        rnd.shuffle(cols)
        last = rnd.random() < .5
        for n, (ks, d) in enumerate(cols):
            sel = h["style"] == "selected"
            kw = {k: {h["x0"] + j - 1 + (0 if sel else d): v for (j, e), v in given[k].items() if e == d} for k in ks}
            o.set_select(s=-1 if d == h["per"] and rnd.random() < .5 else d, age_selected=sel, **kw,
                         **(dict(fill=True, **fill) if last and n == len(cols) - 1 else {}))
        if not last:
            o.fill_table(**fill)
    cache["sel"] = o
    return o


@special("selt_fill")
def selt_fill(row, real, w, cache):
    a, o, x0 = row["a"], _seltable(row, w, cache), w["hist"]["x0"]
    truth = {(k, x0 + j - 1, d): float(v) for k, j, d, v in a["truth"]}
    known = {(k, x0 + j - 1, d) for k, j, d in a["known"]}
    got = {}
    for k in "qldeAa":
        f = o.frame(k)
        for x, r in o[k].items():
            for d, v in r.items():
                if v is not None:
                    got[k, x, d] = v
                    if not (v != v) and f[d][x] != v:
                        return f"frame {k}[{x}][{d}] is {f[d][x]}, not {v}"
    for c in sorted(known - set(got)):
        return f"{c} is missing"
    for c, v in got.items():
        if c not in truth:
            return f"{c} is not a cell of the table"
        if not abs(v - truth[c]) <= 1e-7 * max(1., abs(truth[c])):
            return f"{c} is {v}, not {truth[c]}"
    return "ok"


@special("selt_call")
def selt_call(row, real, w, cache):
    a = row["a"]
    kw = {k: float(v) if isinstance(v, str) else v for k, v in a["a"].items()}
    if "benefit" in kw:
        b = kw["benefit"]
        kw["benefit"] = lambda x, t: b
    return getattr(_seltable(row, w, cache), a["f"])(**kw)


W, VAR = am.Recursion.WHOLE, am.Recursion.VARIANCE


def _term(t):
    return W if t == -1 else t


def _mom(m):
    return VAR if m == -2 else m


def _split(age, rnd):
    s = rnd.choice([0, 0, 1, 2, 5])
    return dict(x=age - s, s=s) if s or rnd.random() < .5 else dict(x=age)


def rec_fact(o, key, val, x0, rnd):
    f, x, t, u, en, m, d = key
    kw, val, t = _split(x0 + x, rnd), float(val), _term(t)
    b = rnd.choice([1, 1, 2, 1000, .5])
    g = b**(2 if m == -2 else m)
    if f == "q":
        return o.set_q(val, t=t, u=u, **kw)
    if f == "p":
        return o.set_p(val, t=t, **kw)
    if f == "e":
        return o.set_e(val, t=t, curtate=d == 1, **kw)
    if f == "E":
        return o.set_E(val * g, t=t, endowment=b, moment=_mom(m), **kw)
    if f == "A":
        return o.set_A(val * g, t=t, u=u, b=b, moment=_mom(m), endowment=-1 if en == 1 and rnd.random() < .5 else en * b, discrete=d == 1, **kw)
    if f == "a":
        return o.set_a(val * g, t=t, u=u, b=b, variance=m == -2, discrete=d == 1, **kw)
    return (o.set_IA if f == "I" else o.set_DA)(val * b, t=t, b=b, discrete=d == 1, **kw)


def rec_query(o, key, x0, rnd):
    """-> value asked of the object, for benefits of 1"""
    f, x, t, u, en, m, d = key
    kw, t, disc = _split(x0 + x, rnd), _term(t), d == 1
    b = rnd.choice([1, 1, 2, 100, .25])
    g = b**(2 if m == -2 else m)
    if f == "q":
        return o.q_x(t=t, u=u, **kw)
    if f == "p":
        return o.p_x(t=t, **kw)
    if f == "e":
        return o.e_x(t=t, curtate=disc, **kw)
    if f == "E":
        v = o.E_x(t=t, endowment=b, moment=_mom(m), **kw)
    elif f == "A":
        kw.update(b=b, moment=_mom(m), discrete=disc)
        if u:
            v = o.deferred_insurance(t=t, u=u, **kw)
        elif en:
            v = o.endowment_insurance(t=t, endowment=-1 if en == 1 and rnd.random() < .5 else en * b, **kw)
        else:
            v = o.whole_life_insurance(**kw) if t == W else o.term_insurance(t=t, **kw)
    elif f == "a":
        kw.update(b=b, discrete=disc)
        if u:
            v = o.deferred_annuity(t=t, u=u, **kw)
        else:
            kw["variance"] = m == -2
            v = o.whole_life_annuity(**kw) if t == W else o.temporary_annuity(t=t, **kw)
    else:
        g = b
        v = (o.increasing_insurance if f == "I" else o.decreasing_insurance)(t=t, b=b, discrete=disc, **kw)
    return None if v is None else v / g


def rec_ask1(o, key, x0, rnd):
    """value, or None: not found.  Quantities that cannot be found are reported in several ways"""
    try:
        return rec_query(o, key, x0, rnd)
    except (NameError, AttributeError, RecursionError) as e:
        return f"{type(e).__name__}: {e}"
    except Exception as e:
        return None


def rec_wrong(got, exp):
    return isinstance(got, str) or not (got == got and abs(got - exp) <= 1e-7 * max(1., abs(exp)))


@special("rec_ask")
def rec_ask(row, real, w, cache):
    a = row["a"]
    rnd = random.Random(a["salt"])
    if "keys" not in cache:
        cache["keys"] = {tuple(k[:7]): float(k[7]) for k in w["keys"]}
    K, x0 = cache["keys"], w["x0"]
    o = am.Recursion(depth=a["depth"], verbose=rnd.random() < .3)
    facts = [tuple(f) for f in a["facts"]]
    rnd.shuffle(facts)
    if rnd.random() < .7:
        o.set_interest(i=float(w["i"]))
        for f in facts:
            rec_fact(o, f, K[f], x0, rnd)
    else:
        for f in facts:
            rec_fact(o, f, K[f], x0, rnd)
        o.set_interest(i=float(w["i"]))
    goal = tuple(a["goal"])
    asks = rnd.sample(sorted(K), 14) if not goal or rnd.random() < .1 else []
    near = [k for k in sorted(K) if k[0] == "qpeEAaID"[rnd.randrange(8)] and k[1] == facts[0][1]] if asks and facts else []
    asks += rnd.sample(near, min(6, len(near)))
    if goal:
        asks.insert(0, goal)
        if len(asks) > 1:
            asks.append(goal)
    for k in asks:
        got = rec_ask1(o, k, x0, rnd)
        if got is None:
            if k == goal and real == "recursion":
                return f"{k} was not found"
        elif rec_wrong(got, K[k]):
            return f"{k} is {got}, not {K[k]}"
    return "ok"


def rec_arg(name, v):
    if name == "val":
        return None if v == "None" else float(v)
    if isinstance(v, bool):
        return v
    if name in ("b", "endowment"):
        v = Fraction(v)
        return int(v) if v == int(v) else float(v)
    return _mom(v) if name == "moment" else _term(v)


def rec_op(o, op):
    """-> None if as expected"""
    kw = {k: rec_arg(k, v) for k, v in op["args"].items()}
    exp = op["exp"]
    try:
        got = getattr(o, op["call"])(**kw)
    except (NameError, AttributeError, RecursionError) as e:
        return f"{op['call']}({kw}) raised {type(e).__name__}: {e}"
    except Exception as e:
        if exp in ("self", "any") or exp != "none":
            return f"{op['call']}({kw}) raised {type(e).__name__}: {e}" if exp != "any" else None
        got = None
    if exp == "any":
        return None
    if exp == "self":
        return None if got is o else f"{op['call']}({kw}) did not return the object"
    if exp == "none":
        return None if got is None else f"{op['call']}({kw}) is {got}, of no fact"
    e = float(exp)
    return None if got is not None and abs(got - e) <= 1e-9 * max(1, abs(e)) else f"{op['call']}({kw}) is {got}, not {e}"


@special("rec_store")
def rec_store(row, real, w, cache):
    a = row["a"]
    o = am.Recursion(depth=a["depth"], verbose=False)
    o.set_interest(i=.05)
    for op in a["ops"] + a["asks"]:
        wrong = rec_op(o, op)
        if wrong:
            return wrong
    return "ok"


def call(row, real, w, cache):
    return SPECIAL.get(row["c"], default)(row, real, w, cache)
