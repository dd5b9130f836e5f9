"""Realisations: the real objects of actuarialmath that stand for an abstract
survival model of the specification (module Worlds.tla, `Def`)."""
import math
import actuarialmath as am


class Inapplicable(Exception):
    """the class cannot express this model"""


def num(s):
    return float(s)


def _lives(w):
    return {w["x0"] + j: num(v) for j, v in enumerate(w["l"])}


def _omega(w):
    return max(a for a, v in _lives(w).items() if v > 0) + 1


def _frac_l(w):
    """lives at any attained age, by the world's fractional age assumption"""
    l = _lives(w)
    udd = w["frac"] == "udd"

    def ell(y):
        k = math.floor(y)
        r = y - k
        a, b = l.get(k, 0.0), l.get(k + 1, 0.0)
        if r == 0:
            return a
        if udd:
            return a * (1 - r) + b * r
        return a ** (1 - r) * b ** r
    return ell


def lt_l(w, **kw):
    return am.LifeTable(udd=w["frac"] == "udd").set_table(l=_lives(w))


def lt_l_open(w):
    """the closing age (no lives) is left out of the table"""
    return am.LifeTable(udd=w["frac"] == "udd").set_table(l={a: v for a, v in _lives(w).items() if v > 0})


def _q(w):
    l = _lives(w)
    return {a: 1 - l.get(a + 1, 0) / v for a, v in l.items() if v > 0}


def lt_q(w):
    l = _lives(w)
    return am.LifeTable(udd=w["frac"] == "udd").set_table(q=_q(w), radix=l[w["x0"]] * 10**6)


def lt_q_open(w):
    """only rates given, the last one leaves survivors"""
    l = _lives(w)
    if min(l.values()) == 0:
        raise Inapplicable
    q = {a: 1 - l[a + 1] / v for a, v in l.items() if a + 1 in l}
    half = sorted(q)[len(q) // 2:]
    return am.LifeTable(udd=w["frac"] == "udd").set_table(
        q={a: v for a, v in q.items() if a not in half}, p={a: 1 - q[a] for a in half}, radix=l[w["x0"]] * 10**6)


def lt_mixed(w):
    """first half given as survival rates, second half as lives"""
    l = _lives(w)
    ages = sorted(a for a, v in l.items() if v > 0)
    h = ages[len(ages) // 2]
    q = _q(w)
    k = 10**6
    return am.LifeTable(udd=w["frac"] == "udd").set_table(
        p={a: 1 - q[a] for a in ages if a < h}, l={a: v * k for a, v in l.items() if a >= h})


def lt_ages(w):
    """the range of ages is given, the limiting age is the closing one"""
    return am.LifeTable(udd=w["frac"] == "udd").set_table(l=_lives(w), minage=w["x0"], maxage=_omega(w))


def lt_wide(w):
    """the range of ages given is wider than that of the lives"""
    return am.LifeTable(udd=w["frac"] == "udd").set_table(l=_lives(w), minage=max(0, w["x0"] - 1), maxage=_omega(w) + 4)


def lt_twice(w):
    """lives given in two calls, completed only at the second"""
    l = _lives(w)
    ages = sorted(l)
    h = ages[len(ages) // 2]
    return am.LifeTable(udd=w["frac"] == "udd").set_table(l={a: l[a] for a in ages if a > h}, fill=False) \
        .set_table(l={a: l[a] for a in ages if a <= h})


def res_l(w):
    ell = _frac_l(w)
    return am.Reserves(udd=w["frac"] == "udd").set_survival(
        l=lambda x, s: ell(x + s), minage=w["x0"], maxage=_omega(w))


def res_S(w):
    ell = _frac_l(w)
    return am.Reserves(udd=w["frac"] == "udd").set_survival(
        S=lambda x, s, t: (ell(x + s + t) / ell(x + s)) if ell(x + s) else 0.0, minage=w["x0"], maxage=_omega(w))


def rec_l(w):
    ell = _frac_l(w)
    return am.Recursion(udd=w["frac"] == "udd").set_survival(
        l=lambda x, s: ell(x + s), minage=w["x0"], maxage=_omega(w))


def sult(w):
    ell = _frac_l(w)
    l0 = ell(w["x0"])
    return am.SULT(udd=w["frac"] == "udd", S=lambda x, t: ell(x + t) / l0, radix=l0,
                   minage=w["x0"], maxage=_omega(w))


def sel_l(w):
    l = _lives(w)
    return am.SelectLife(udd=w["frac"] == "udd").set_table(l={a: [v] for a, v in l.items()})


def _rows(w):
    return {w["x0"] + j: [num(v) for v in r] for j, r in enumerate(w["rows"])}


def select_l(w):
    return am.SelectLife(periods=w["per"], udd=w["frac"] == "udd").set_table(l=_rows(w))


def _sel_at(w):
    rows, per = _rows(w), w["per"]

    def ell(x, s):
        e = min(s, per)
        y = x + s - e
        return rows[y][e] if y in rows else 0.0
    return ell


def sel_frac(w):
    ell, udd = _sel_at(w), w["frac"] == "udd"

    def f(x, s):
        k = math.floor(s)
        r = s - k
        a, b = ell(x, k), ell(x, k + 1)
        return a if r == 0 else (a * (1 - r) + b * r if udd else a ** (1 - r) * b ** r)
    return f


def res_sel(w):
    return am.Reserves(udd=w["frac"] == "udd").set_survival(
        l=sel_frac(w), minage=w["x0"], maxage=w["x0"] + len(w["rows"]) - 1 + w["per"])


def sl(w):
    return am.SelectLife(udd=w["frac"] == "udd").set_table(
        l={w["x0"] + j: [num(v) for v in r] for j, r in enumerate(w["rows"])})


def cforce(w):
    return am.ConstantForce(mu=num(w["mu"]))


def res_mu(w):
    m = num(w["mu"])
    return am.Reserves().set_survival(mu=lambda x, s: m, minage=0, maxage=1000)


def res_cf(w):
    m = num(w["mu"])
    return am.Reserves(udd=False).set_survival(S=lambda x, s, t: math.exp(-m * t), minage=0, maxage=1000)


def uniform(w):
    if num(w["alpha"]) != 1:
        raise Inapplicable
    return am.Uniform(omega=int(w["w"]))


def beta(w):
    return am.Beta(omega=int(w["w"]), alpha=num(w["alpha"]))


def res_beta(w):
    om, al = int(w["w"]), num(w["alpha"])
    return am.Reserves().set_survival(l=lambda x, s: max(om - x - s, 0.0) ** al, minage=0, maxage=om)


def makeham(w):
    A, B, c = num(w["A"]), num(w["B"]), num(w["c"])
    if A == 0:
        return am.Gompertz(B=B, c=c)
    return am.Makeham(A=A, B=B, c=c)


def res_Sf(w):
    """survival and density functions, of a table, select table or smooth law"""
    if w["kind"] in ("table", "select"):
        udd = w["frac"] == "udd"
        if w["kind"] == "select":
            at, ell = _sel_at(w), sel_frac(w)
            top = w["x0"] + len(w["rows"]) - 1 + w["per"]
        else:
            tab, fr = _lives(w), _frac_l(w)
            at, ell = (lambda x, s: tab.get(x + s, 0.0)), (lambda x, s: fr(x + s))
            top = _omega(w)

        def S(x, s, t):
            return ell(x, s + t) / ell(x, s) if ell(x, s) else 0.0

        def f(x, s, t):
            k = math.floor(s + t)
            a, b = at(x, k), at(x, k + 1)
            if not a or not ell(x, s):
                return 0.0
            return (a - b if udd else (math.log(a / b) * ell(x, s + t) if b else 0.0)) / ell(x, s)
        return am.Reserves(udd=udd).set_survival(S=S, f=f, minage=w["x0"], maxage=top)
    fs = forms(w)
    om = num(w["w"]) if w["kind"] == "beta" else None
    S, f = fs["S"], fs["f"]
    if om is not None:
        S = lambda x, s, t: fs["S"](x, s, t) if x + s + t < om else 0.0
        f = lambda x, s, t: fs["f"](x, s, t) if x + s + t < om else 0.0
    return am.Reserves().set_survival(S=S, f=f, minage=20 if w["kind"] == "makeham" else 0, maxage=int(w.get("w", 1000)))


# ---- survival functions in one or several forms (smooth laws, not clamped)
def forms(w):
    k = w["kind"]
    if k == "cforce":
        m = num(w["mu"])
        return dict(S=lambda x, s, t: math.exp(-m * t), l=lambda x, s: 1e5 * math.exp(-m * (x + s)),
                    mu=lambda x, s: m, f=lambda x, s, t: m * math.exp(-m * t))
    if k == "beta":
        om, al = num(w["w"]), num(w["alpha"])
        return dict(S=lambda x, s, t: ((om - x - s - t) / (om - x - s)) ** al, l=lambda x, s: 1e5 * (om - x - s) ** al,
                    mu=lambda x, s: al / (om - x - s),
                    f=lambda x, s, t: al * (om - x - s - t) ** (al - 1) / (om - x - s) ** al)
    if k == "makeham":
        A, B, c = num(w["A"]), num(w["B"]), num(w["c"])
        S = lambda x, s, t: math.exp(-A * t - B * c ** (x + s) * (c ** t - 1) / math.log(c))
        mu = lambda x, s: A + B * c ** (x + s)
        return dict(S=S, l=lambda x, s: 1e5 * S(20, 0, x + s - 20), mu=mu, f=lambda x, s, t: S(x, s, t) * mu(x, s + t))
    A, B, C = num(w["A"]), num(w["B"]), num(w["C"])
    H = lambda x, d: (A + B * x) * d + C * d * d / 2
    S = lambda x, s, t: math.exp(H(x, s) - H(x, s + t))
    mu = lambda x, s: A + B * x + C * s
    return dict(S=S, l=lambda x, s: 1e5 * math.exp(-H(x, s)), mu=mu, f=lambda x, s, t: S(x, s, t) * mu(x, s + t))


def form(*keys, cls="Survival", again=False):
    def make(w):
        o = getattr(am, cls)()
        if again:    # a life that was given another survival model before
            o.set_survival(l=lambda x, s: 7.0 * (500 - x - s), mu=lambda x, s: 1 / (500 - x - s), minage=3, maxage=444)
            o.p_x(30, t=2), o.mu_x(30), o.l_x(40)
        fs = forms(w)
        o.set_survival(minage=20 if w["kind"] == "makeham" else 0, maxage=int(w.get("w", 1000)), **{k: fs[k] for k in keys})
        o._forms = keys
        return o
    return make


REALS = {f.__name__: f for f in (lt_l, lt_ages, lt_wide, lt_twice, lt_l_open, lt_q, lt_q_open, lt_mixed, res_l, res_S, rec_l, sult, sel_l, select_l, res_sel, sl,
                                 cforce, res_mu, res_cf, uniform, beta, res_beta, makeham, res_Sf)}

FORMS = {"S": "S", "l": "l", "mu": "mu", "f": "f", "Sl": "S l", "Smu": "S mu", "lmu": "l mu", "Sf": "S f", "all": "S l mu f"}
for _k, _v in FORMS.items():
    REALS["fs_" + _k] = form(*_v.split())
REALS["fs_again_S"] = form("S", again=True)
REALS["fs_again_f"] = form("f", again=True)
REALS["fs_again_mu"] = form("mu", again=True, cls="Reserves")
REALS["fr_S"] = form("S", cls="Reserves")
REALS["fr_mu"] = form("mu", cls="Reserves")
