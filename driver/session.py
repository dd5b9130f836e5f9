"""Records sessions of a user with the real library, for the trace specification T31.

usage: session.py PROP SEED TIER OUT
A session makes several objects, changes their interest rates, reserves, facts, contracts and
survival models, asks questions that are answered or refused, and asks many of them again later.
Every question of a session is also put to a fresh object in a fresh process that was only told
the same things.  All of it is logged as events; the specification decides whether the answers fit.
"""
import contextlib, copy, decimal, io, json, math, multiprocessing, os, random, signal, sys, warnings
warnings.simplefilter("ignore")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
np.seterr(all="ignore")
import pandas as pd
import matplotlib.pyplot as plt
import actuarialmath as am
import calls, worlds

WHOLE, VARIANCE = -999, -2
TERMS = ("premium", "initial_policy", "initial_premium", "renewal_policy", "renewal_premium", "settlement_policy", "benefit", "endowment", "T", "discrete")


# ------------------------------------------------------------------ encoding
def text(v):
    v = float(v)
    return format(decimal.Decimal(repr(v)), "f")


def encode(v, num, txt):
    if v is None or isinstance(v, (bool, np.bool_, str)):
        txt.append(str(v))
    elif isinstance(v, (int, float, np.integer, np.floating)):
        if math.isfinite(v):
            num.append(text(v))
            txt.append("#")
        else:
            txt.append(str(float(v)))
    elif isinstance(v, pd.DataFrame):
        encode(v.reset_index().to_dict("list"), num, txt)
    elif isinstance(v, (pd.Series, np.ndarray)):
        encode(list(v), num, txt)
    elif isinstance(v, dict):
        for k in v:
            encode(k, num, txt)
            encode(v[k], num, txt)
    elif isinstance(v, (list, tuple)):
        txt.append(f"({len(v)}")
        for k in v:
            encode(k, num, txt)
    else:
        txt.append(type(v).__name__)


def answer(f):
    num, txt = [], []
    signal.alarm(60)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            encode(f(), num, txt)
    except Exception:
        num, txt = [], ["raises"]
    finally:
        signal.alarm(0)
    return dict(num=num, txt=" ".join(txt))


# ----------------------------------------------------------- doing one operation
def terms(kw):
    return {k: int(v) if k == "T" else float(v) for k, v in kw}


def plotted(env, o, a):
    kw = dict(a)
    fn = kw.pop("plot")
    fig, ax = plt.subplots()
    try:
        getattr(o, fn)(ax=ax, **kw)
    finally:
        plt.close("all")
    return "drawn"


def solved(o, a):
    return o.solve(lambda b: o.whole_life_insurance(a["x"]) * b, target=a["target"], grid=a["grid"])


def static(fn, a):
    if fn == "mthly":
        return [am.Interest.mthly(m=a["m"], i=a["i"]), am.UDD.alpha(m=a["m"], i=a["i"]), am.UDD.beta(m=a["m"], i=a["i"])]
    if fn == "frame":
        return am.UDD.interest_frame(i=a["i"])
    if fn == "prob":
        return [am.Life.bernoulli(p=a["p"], a=3, b=1, variance=True), am.Life.binomial(p=a["p"], N=a["N"], variance=True),
                am.Life.mixture(p=a["p"], p1=.2, p2=.7, N=a["N"], variance=True), am.Life.portfolio_percentile(5, 2, a["p"], N=a["N"])]
    if fn == "solve":
        return am.Life.solve(lambda x: x ** 2 + x, target=a["N"], grid=[0, 1])
    if fn == "integral":
        return [am.Life.integral(lambda x: x ** 2, 0, a["N"]), am.Life.derivative(lambda x: x ** 2, a["N"])]
    return [am.Life.WHOLE, am.Life.VARIANCE, am.SULT().l_x(30), am.Contract().premium_terms]


def perform(env, op, models):
    """-> the event: the operation with what was observed"""
    ev = dict(op)
    k, o = op["op"], env.get(op.get("o"))
    if k == "new":
        if op["real"] == "recursion":
            env[op["o"]] = am.Recursion(verbose=op["m"] == 1)
        elif op["real"] == "sult0":
            env[op["o"]] = am.SULT()
        elif op["real"] == "contract":
            env[op["o"]] = am.Contract(**terms(op["kw"]))
        elif op["real"] == "static":
            env[op["o"]] = None
        elif op["life"]:
            life = env[op["life"]]
            env[op["o"]] = (am.ExtraRisk(life=life, risk=op["opt"], extra=op["m"] / 100) if op["real"] == "ExtraRisk" else
                            am.Woolhouse(m=op["m"], life=life, three_term=op["opt"] == "3") if op["real"] == "Woolhouse" else
                            getattr(am, op["real"])(m=op["m"], life=life))
        else:
            env[op["o"]] = worlds.REALS[op["real"]](models[op["mi"] - 1])
    elif k == "int":
        by, val = op["by"], op["val"]
        try:
            if by == "curve":
                o.set_interest(v_t=calls.discount(dict(id="hyper", a=str(float(calls.Fraction(val))), p="2")))
            elif by in ("i_m", "d_m"):
                o.set_interest(**{by: calls.Fraction(val).__float__(), "m": 4})
            elif by == "bad":
                o.set_interest(v_t=lambda t: 2.0 + t)
            else:
                o.set_interest(**{by: float(calls.Fraction(val))})
            ev["res"] = "ok"
        except Exception:
            ev["res"] = "raises"
        ev["got"] = answer(lambda: [o.interest.i, o.interest.v, o.interest.d] if o.interest.i is not None else [None] * 3)
    elif k == "solvei":
        # the rate at which the insurance has the value of a rate given: the object is left at the root
        x, r = op["x"], float(calls.Fraction(op["val"]))
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                root = o.solve(lambda i: o.set_interest(i=i).whole_life_insurance(x), target=op["target"], grid=[max(0.0, r - 0.01), r + 0.02])
            ev["res"] = "ok"
            ev["got"] = answer(lambda: [root, o.interest.i])
        except Exception:
            ev["res"] = "raises"
            ev["got"] = dict(num=[], txt="raises")
        if ev["res"] == "raises" or not ev["got"]["num"]:
            return None
    elif k == "model":
        m = models[op["mi"] - 1]
        ell = worlds._frac_l(m)
        o.set_survival(S=lambda x, s, t: (ell(x + s + t) / ell(x + s)) if ell(x + s) else 0.0, minage=m["x0"], maxage=worlds._omega(m))
    elif k == "set":
        o.set_contract(**terms(op["kw"]))
    elif k == "ren":
        env[op["to"]] = o.renewals(op["t"]) if op["t"] else o.renewals()
    elif k == "fact":
        getattr(o, "set_" + op["fn"])(float(op["val"]), **op["a"])
    elif k == "res":
        V = {int(t): float(v) for t, v in op["V"]}
        o.set_reserves(T=op["T"], endowment=op["en"], V=V)
        ev["same"] = V == {int(t): float(v) for t, v in op["V"]}
    elif k == "fill":
        try:
            o.fill_reserves(op["x"], s=op["s"], reserve_benefit=op["ret"], contract=env[op["c"]] if op["c"] else None)
        except Exception:
            return None
    elif k == "ask":
        a = calls.conv(op["a"])
        if op["c"]:
            a["contract"] = env[op["c"]]
        before = look(a.get("contract"))
        fn = op["fn"]
        if o is None:
            ev["ans"] = answer(lambda: static(fn, a))
        elif fn == "plot":
            ev["ans"] = answer(lambda: plotted(env, o, a))
        elif fn == "solve_b":
            ev["ans"] = answer(lambda: solved(o, a))
        elif fn == "terms":
            def get():
                d = o.premium_terms
                out = [o.renewal_profit, o.initial_cost, o.claims_cost, dict(d), look(o)]
                d.clear()                   # what was returned is the user's own
                return out
            ev["ans"] = answer(get)
        elif fn.startswith("get:"):
            ev["ans"] = answer(lambda: getattr(o.interest, fn[4:]))
        elif fn == "v_t":
            ev["ans"] = answer(lambda: o.interest.v_t(a["t"]))
        elif fn == "col":
            ev["ans"] = answer(lambda: o[a["label"]])
        elif fn in ("frame", "reserves_frame"):
            def get():
                d = getattr(o, fn)()
                out = d.reset_index().to_dict("list")
                d.iloc[:, 0] = 0            # likewise
                return out
            ev["ans"] = answer(get)
        else:
            ev["ans"] = answer(lambda: getattr(o, fn)(**a))
        ev["same"] = before == look(a.get("contract"))
    return ev


def look(c):
    return None if c is None else {k: -1 if k == "T" and getattr(c, k) < 0 else getattr(c, k) for k in TERMS}


# ------------------------------------------------------------ a user, at random
class User:
    def __init__(self, rng, tier):
        self.rng, self.n, self.ops = rng, 0, []
        self.models = [self.table() for _ in range(2)] + [self.select(), self.law()]
        self.models[1]["x0"] = self.models[0]["x0"]
        self.objs = {}          # id -> dict(real, mi, life)
        self.pool = {}          # id -> questions put to it before

    def table(self):
        rng = self.rng
        qs = [rng.choice((.05, .1, .2, .3, .5, .01, .25, 0.0)) for _ in range(rng.randint(3, 8))]
        l = [100000]
        for q in qs:
            l.append(round(l[-1] * (1 - q)))
        return dict(world="m", kind="table", x0=rng.choice((0, 30, 40, 96)), frac=rng.choice(("udd", "udd", "cfm")), l=[str(v) for v in l + [0]])

    def select(self):
        rng, per = self.rng, self.rng.randint(1, 2)
        u = [9000, 7200, 5400, 2700, 900, 0]
        rows = []
        for j in range(6):
            r = [u[j]]
            for d in range(per):
                r.insert(0, round(r[0] / (1 - rng.choice((.02, .05, .1)))))
            rows.append([str(v) for v in r])
        return dict(world="m", kind="select", x0=50, per=per, frac="udd", rows=rows)

    def law(self):
        rng = self.rng
        k = rng.choice(("cforce", "beta", "makeham"))
        if k == "cforce":
            p = rng.choice((24 / 25, 9 / 10))
            return dict(world="m", kind=k, p="24/25" if p > .95 else "9/10", mu=repr(-math.log(p)), x0=0, frac="law")
        if k == "beta":
            return dict(world="m", kind=k, w=rng.choice((12, 20)), alpha="1", x0=0, frac="law")
        return dict(world="m", kind=k, A=rng.choice(("0", "0.0002")), B="0.00005", c="1.1", x0=20, frac="law")

    REAL = {"table": ("lt_l", "lt_q", "res_S", "res_S", "res_l"), "select": ("sl", "res_sel"), "cforce": ("cforce", "res_cf"), "beta": ("uniform", "beta"),
            "makeham": ("makeham",)}

    def do(self, **op):
        self.ops.append(op)

    def name(self, p):
        self.n += 1
        return f"{p}{self.n}"

    def make(self):
        rng = self.rng
        mi = rng.choice((1, 1, 1, 2, 3, 3, 4, 5))
        if mi == 5:
            real = "sult0"
        else:
            real = rng.choice(self.REAL[self.models[mi - 1]["kind"]])
        o = self.name("o")
        self.objs[o] = dict(real=real, mi=mi, life="", kind="life", reserved=False)
        self.do(op="new", o=o, real=real, mi=mi, life="", m=0, opt="", kw=[])

    def wrap(self):
        rng = self.rng
        lives = [k for k, v in self.objs.items() if v["kind"] == "life"]
        life = rng.choice(lives)
        real = rng.choice(("Mthly", "UDD", "Woolhouse", "ExtraRisk"))
        o = self.name("w")
        m = rng.choice((2, 4, 12)) if real != "ExtraRisk" else rng.choice((1, 5, 20))
        opt = {"Woolhouse": rng.choice("23"), "ExtraRisk": rng.choice(("ADD_FORCE", "MULTIPLY_RATE", "MULTIPLY_FORCE", "ADD_AGE"))}.get(real, "")
        if opt == "ADD_AGE":
            m = 100
        self.objs[o] = dict(real=real, mi=self.objs[life]["mi"], life=life, kind="wrap", opt=opt, m=m)
        self.do(op="new", o=o, real=real, mi=0, life=life, m=m, opt=opt, kw=[])

    def contract(self):
        rng = self.rng
        o = self.name("c")
        kw = [["benefit", rng.choice(("1000", "1"))], ["premium", rng.choice(("50", "0.2", "12.5"))], ["initial_policy", "20"]]
        kw += [["renewal_premium", "0.05"]] * rng.randint(0, 1) + [["T", "3"]] * rng.randint(0, 1) + [["settlement_policy", "10"]] * rng.randint(0, 1)
        self.objs[o] = dict(real="contract", kind="contract")
        self.do(op="new", o=o, real="contract", mi=0, life="", m=0, opt="", kw=kw)

    def recursion(self):
        rng, o = self.rng, self.name("r")
        self.objs[o] = dict(real="recursion", kind="recursion")
        self.do(op="new", o=o, real="recursion", mi=0, life="", m=rng.randint(0, 1), opt="", kw=[])
        self.do(op="int", o=o, by="i", val="1/20")
        self.fact(o)

    def fact(self, o):
        rng, x = self.rng, 40
        for _ in range(rng.randint(1, 3)):
            fn, a, v = rng.choice((("q", dict(x=x), ".1"), ("q", dict(x=x + 1), ".2"), ("A", dict(x=x + 2), ".6"), ("a", dict(x=x + 1), "7.5"),
                                   ("A", dict(x=x), ".5"), ("p", dict(x=x, t=2), ".72"), ("e", dict(x=x + 2), "12"), ("a", dict(x=x, t=2), "1.857")))
            self.do(op="fact", o=o, fn=fn, a=a, key=fn + json.dumps(a, sort_keys=True), val=v)

    def rate(self, o):
        by, val = self.rng.choice((("i", "1/20"), ("i", "1/20"), ("i", "1/10"), ("d", "1/21"), ("v", "10/11"), ("i", "0"), ("i_m", "1/25"), ("d_m", "1/25"),
                                   ("curve", "1/5"), ("bad", "1")))
        if self.objs[o]["kind"] == "recursion" and by in ("curve", "bad"):
            by, val = "i", "1/10"
        self.do(op="int", o=o, by=by, val=val)

    def age(self, o):
        mi = self.objs[o]["mi"]
        if mi == 5:
            return self.rng.choice((40, 60)), self.rng.choice((0, 2))
        m = self.models[mi - 1]
        x0 = m["x0"]
        if m["kind"] == "table":
            return x0 + self.rng.choice((0, 1)), self.rng.choice((0, 0, 1))
        if m["kind"] == "select":
            return x0 + self.rng.choice((0, 1)), self.rng.choice((0, 1, 2))
        return {"cforce": 30, "beta": 3, "makeham": 40}[m["kind"]] + self.rng.choice((0, 2)), self.rng.choice((0, 1))

    def question(self, o):
        rng, d = self.rng, self.objs[o]
        k = d["kind"]
        ch = rng.choice
        if k == "contract":
            return "terms", {}, ""
        if k == "static":
            fn = ch(("mthly", "frame", "prob", "solve", "integral", "constants"))
            return fn, {"mthly": dict(m=ch((0, 4, 12)), i=".05"), "frame": dict(i=".05"), "prob": dict(p=".3", N=ch((1, 5))), "solve": dict(N=ch((2, 6))),
                        "integral": dict(N=ch((1, 2))), "constants": {}}[fn], ""
        if k == "recursion":
            fn = ch(("p_x", "q_x", "e_x", "whole_life_insurance", "whole_life_annuity", "term_insurance", "temporary_annuity", "E_x", "deferred_annuity",
                     "endowment_insurance", "increasing_insurance"))
            a = dict(x=40 + ch((0, 0, 1)))
            if fn in ("term_insurance", "temporary_annuity", "E_x", "endowment_insurance", "p_x", "q_x", "increasing_insurance"):
                a["t"] = ch((1, 2))
            if fn == "deferred_annuity":
                a["u"] = ch((1, 2))
            return fn, a, ""
        x, s = self.age(o)
        xs = dict(x=x, s=s)
        t, u, b = ch((1, 2, 3, WHOLE)), ch((0, 1, 2)), ch((1, 100))
        t1 = 2 if t == WHOLE else t
        mom = ch((1, 1, 2, VARIANCE))
        if k == "wrap":
            if d["real"] == "ExtraRisk":
                return ch((("p_x", xs, ""), ("q_x", xs, ""), ("col", dict(label=ch("pq")), "")))
            fn = ch(("whole_life_insurance", "term_insurance", "endowment_insurance", "deferred_insurance", "whole_life_annuity", "temporary_annuity",
                     "deferred_annuity", "v_m"))
            a = dict(xs, b=b)
            if fn in ("term_insurance", "endowment_insurance", "temporary_annuity", "deferred_annuity", "deferred_insurance"):
                a["t"] = t
            if fn.startswith("deferred"):
                a["u" if fn == "deferred_annuity" or d["real"] == "Woolhouse" else "n"] = u
            if fn == "v_m":
                a = dict(k=ch((1, 3)))
            return fn, a, ""
        disc = rng.random() < .8
        cs = [n for n, v in self.objs.items() if v["kind"] == "contract"]
        c = ch(cs + [""])
        qs = [("p_x", dict(xs, t=t1)), ("q_x", dict(xs, u=u, t=t1)), ("l_x", xs), ("d_x", xs), ("e_x", dict(xs, t=t, curtate=True, moment=mom)),
              ("E_x", dict(xs, t=t1, endowment=b, moment=mom)), ("E_x", dict(xs, t=t1, endowment=b, moment=1)),
              ("p_r", dict(xs, r="0.25", t="0.5")), ("mu_r", dict(xs, r="0.25")), ("e_r", dict(xs, t=t1)),
              ("whole_life_insurance", dict(xs, moment=mom, b=b, discrete=disc)), ("whole_life_insurance", dict(xs, moment=1, b=b, discrete=True)),
              ("term_insurance", dict(xs, t=t, b=b, moment=mom, discrete=disc)), ("term_insurance", dict(xs, t=t, b=b, moment=1, discrete=True)),
              ("deferred_insurance", dict(xs, u=u, t=t, b=b, moment=mom, discrete=True)), ("endowment_insurance", dict(xs, t=t1, b=b, endowment=ch((-1, 50)), moment=mom, discrete=True)),
              ("increasing_insurance", dict(xs, t=t1, b=b, discrete=True)), ("decreasing_insurance", dict(xs, t=t1, b=b, discrete=True)),
              ("whole_life_annuity", dict(xs, b=b, variance=rng.random() < .3, discrete=disc)), ("whole_life_annuity", dict(xs, b=b, variance=False, discrete=True)),
              ("temporary_annuity", dict(xs, t=t, b=b, variance=False, discrete=True)), ("temporary_annuity", dict(xs, t=t, b=b, variance=True, discrete=True)),
              ("deferred_annuity", dict(xs, u=u, t=t, b=b, discrete=True)), ("certain_life_annuity", dict(xs, u=u, t=t, b=b)),
              ("immediate_annuity", dict(xs, t=t, b=b)), ("increasing_annuity", dict(xs, t=t1, b=b)), ("A_x", dict(xs, u=u, t=t1, benefit=[5, 7, 2])),
              ("insurance_twin", dict(a="3.5")), ("annuity_twin", dict(A=".4")), ("net_premium", dict(xs, t=t, b=b)), ("net_premium", dict(xs, t=t1, n=1, u=u, b=b)),
              ("premium_equivalence", dict(A=".4", b=b)), ("net_policy_value", dict(xs, t=1, b=b)), ("net_policy_variance", dict(xs, t=1, b=b)),
              ("Z_t", dict(x=x, prob="0.6")), ("Y_t", dict(x=x, prob="0.6")), ("Z_from_t", dict(t="2.5")), ("Y_from_t", dict(t="2.5")), ("Z_to_t", dict(Z="0.7")),
              ("Z_x", dict(xs, t=1)), ("Y_x", dict(xs, t=1)), ("v_t", dict(t="2.5")), ("get:i", {}), ("get:delta", {}), ("get:v", {}),
              ("solve_b", dict(x=x, target="77", grid=[50, 200])), ("reserves_frame", {}), ("t_V", dict(xs, t=ch((1, 2)), premium="10", reserve_benefit=rng.random() < .5)),
              ("t_V", dict(xs, t=ch((1, 2)), premium="10")), ("q_x", dict(x=x, s=-1)), ("E_x", dict(xs, t=t1, moment=7)), ("solve_b", dict(x=-50, target="9", grid=[1, 2])),
              ("plot", dict(plot="V_plot", title="r"))]
        con = [("gross_policy_value", dict(xs, t=ch((0, 1)))), ("gross_policy_variance", dict(xs, t=1)), ("L_from_t", dict(t="2.5")), ("L_to_t", dict(L="3")),
               ("gross_future_loss", dict(A=".4")), ("gross_variance_loss", dict(A1=".4", A2=".25")), ("L_from_prob", dict(x=x, prob="0.6")), ("L_to_prob", dict(x=x, L="3"))]
        if d["real"] in ("lt_l", "lt_q", "sl"):
            qs += [("frame", {})] * 2
        if d["mi"] != 5 and self.models[d["mi"] - 1]["kind"] == "table" and rng.random() < .1:
            return "plot", dict(x=x, plot=ch(("Z_plot", "Y_plot", "L_plot"))), ""
        if rng.random() < .25:
            fn, a = ch(con)
            return fn, a, c
        fn, a = ch(qs)
        return fn, a, ""

    def ask(self, o):
        old = self.pool.setdefault(o, [])
        if old and self.rng.random() < .55:
            fn, a, c = self.rng.choice(old)
        else:
            # a question others of the same kind were asked, or a new one
            peers = [q for p, qs in self.pool.items() if p != o and p in self.objs and
                     (self.objs[p]["kind"], self.objs[p].get("mi"), self.objs[p].get("real") if self.objs[p]["kind"] == "wrap" else "") ==
                     (self.objs[o]["kind"], self.objs[o].get("mi"), self.objs[o].get("real") if self.objs[o]["kind"] == "wrap" else "") for q in qs]
            fn, a, c = self.rng.choice(peers) if peers and self.rng.random() < .4 else self.question(o)
            old.append((fn, a, c))
        self.do(op="ask", o=o, fn=fn, a=a, aj=fn + json.dumps(a, sort_keys=True), c=c)

    def session(self, length):
        rng = self.rng
        self.do(op="new", o="s", real="static", mi=0, life="", m=0, opt="", kw=[])
        self.objs["s"] = dict(real="static", kind="static")
        self.make(), self.make(), self.contract()
        while len(self.ops) < length:
            r = rng.random()
            lives = [k for k, v in self.objs.items() if v["kind"] == "life"]
            if r < .06 and len(lives) < 6:
                self.make()
            elif r < .12 and len(self.objs) < 14:
                self.wrap()
            elif r < .14 and len(self.objs) < 14:
                self.contract()
            elif r < .16 and not any(v["kind"] == "recursion" for v in self.objs.values()):
                self.recursion()
            elif r < .26:
                self.rate(rng.choice([k for k, v in self.objs.items() if v["kind"] in ("life", "recursion")]))
            elif r < .28:
                o = rng.choice(lives)
                if self.objs[o]["real"] in ("lt_l", "res_S", "lt_q"):
                    v = rng.choice(("1/20", "1/10"))
                    self.do(op="solvei", o=o, x=self.age(o)[0], val=v, target=rng.choice((.7, .8, .85)))
            elif r < .31:
                o = rng.choice(lives)
                if self.objs[o]["real"] == "res_S":
                    ms = [k + 1 for k in (0, 1) if self.models[k]["frac"] == self.models[self.objs[o]["mi"] - 1]["frac"]]
                    self.objs[o]["mi"] = rng.choice(ms)
                    self.do(op="model", o=o, mi=self.objs[o]["mi"])
            elif r < .34:
                cs = [k for k, v in self.objs.items() if v["kind"] == "contract"]
                if rng.random() < .6 or len(self.objs) > 14:
                    self.do(op="set", o=rng.choice(cs), kw=[rng.choice((["premium", "33"], ["benefit", "500"], ["renewal_policy", "2"], ["T", "4"], ["endowment", "70"]))])
                else:
                    n = self.name("c")
                    self.do(op="ren", o=rng.choice(cs), to=n, t=rng.choice((0, 0, 1)))
                    self.objs[n] = dict(real="contract", kind="contract")
            elif r < .38:
                self.do(op="res", o=rng.choice(lives), T=rng.choice((2, 3)), en=rng.choice((0, 100)), V=rng.choice(([], [["1", "0.25"]], [["1", "1.5"], ["2", "4"]])))
            elif r < .40:
                o = rng.choice(lives)
                x, s = self.age(o)
                self.do(op="fill", o=o, x=x, s=s, ret=rng.random() < .3, c=rng.choice([k for k, v in self.objs.items() if v["kind"] == "contract"] + [""]))
            elif r < .43:
                rs = [k for k, v in self.objs.items() if v["kind"] == "recursion"]
                if rs:
                    self.fact(rs[0])
            else:
                self.ask(rng.choice(list(self.objs)))


# ------------------------------------------------ what an object was told, replayed
def told(ops, k):
    """operations before ops[k] that concern its object (and what it is made of), the questions left out"""
    need, out = {ops[k]["o"]} | ({ops[k]["c"]} if ops[k].get("c") else set()), []
    def uses(op):
        if op["op"] == "new":
            return {op["o"]}
        return {op["to"]} if op["op"] == "ren" else {op["o"]}
    grown = True
    while grown:
        grown = False
        for op in ops[:k]:
            if op["op"] != "ask" and uses(op) & need:
                for d in (op.get("life"), op.get("c"), op["o"]):
                    if d and d not in need:
                        need.add(d)
                        grown = True
    for j, op in enumerate(ops[:k]):
        if op["op"] == "ask" or not uses(op) & need:
            continue
        # rates that were replaced before they were used for anything that is kept
        if op["op"] in ("int", "solvei"):
            later = [p for p in ops[j + 1:k] if p["o"] == op["o"] and p["op"] in ("int", "solvei", "fill") and p.get("by") != "bad"]
            if later and later[0]["op"] == "int":
                continue
        out.append(op)
    return out


def rename(op, tag):
    op = dict(op)
    for f in ("o", "c", "to", "life"):
        if op.get(f):
            op[f] = tag + op[f]
    return op


def isolated(f, *args):
    """f(*args) in a forked process of its own"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            out = json.dumps(f(*args)).encode()
        except BaseException as e:
            out = json.dumps(dict(error=repr(e))).encode()
        with os.fdopen(w, "wb") as h:
            h.write(out)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as h:
        data = h.read()
    os.waitpid(pid, 0)
    return json.loads(data) if data else dict(error="died")


def run(ops, models):
    env, out = {}, []
    for op in ops:
        try:
            ev = perform(env, op, models)
            if ev is not None:
                ev["failed"] = False
        except Exception as e:      # nothing a user does outside a question may fail
            ev = dict(op, failed=True, why=repr(e)[:200])
            out.append(ev)
            break
        out.append(ev)
    return out


def history(task):
    seed, tier, k = task
    rng = random.Random(f"{seed}/{k}")
    u = User(rng, tier)
    u.session(90 if tier == "quick" else 160)
    main = isolated(run, u.ops, u.models)
    if isinstance(main, dict):
        return dict(id=k, error=main["error"])
    if main[-1] and main[-1]["failed"]:
        return dict(id=k, models=u.models, ev=[e for e in main if e is not None], main=len(main))
    ops = [o for o, e in zip(u.ops, main) if e is not None]
    evs = [e for e in main if e is not None]
    refs, seen = [], set()
    for j, op in enumerate(ops):
        if op["op"] != "ask":
            continue
        path = told(ops, j)
        key = json.dumps([path, op], sort_keys=True)
        if key in seen:
            continue
        seen.add(key)
        if tier == "quick" and rng.random() < .35:
            continue
        tag = f"f{len(seen)}."
        got = isolated(run, [rename(p, tag) for p in path] + [rename(op, tag)], u.models)
        if isinstance(got, dict):
            return dict(id=k, error=got["error"])
        refs += [e for e in got if e is not None]
    return dict(id=k, models=u.models, ev=evs + refs if k % 2 else refs + evs, main=len(evs))


def main():
    _, seed, tier, out = sys.argv[1:5]
    n = 200 if tier == "quick" else 600
    def alarm(*_):
        raise RuntimeError("did not return")
    signal.signal(signal.SIGALRM, alarm)
    with multiprocessing.get_context("fork").Pool(8) as pool:
        hs = pool.map(history, [(seed, tier, k) for k in range(n)], chunksize=1)
    bad = [h for h in hs if "error" in h]
    if bad:
        raise SystemExit(f"recording failed: {bad[0]}")
    json.dump(hs, open(out, "w"))


if __name__ == "__main__":
    main()
