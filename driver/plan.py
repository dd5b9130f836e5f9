"""Which specification modules decide which property, on which realisations."""
TABLE = ["lt_l", "lt_l_open", "lt_q", "lt_mixed", "res_l", "res_S", "sult"]
STD = {"table": TABLE, "select": ["res_sel", "sl"], "cforce": ["cforce", "res_cf"], "beta": ["uniform", "beta", "res_beta"],
       "makeham": ["makeham"]}

WIDE = {**STD, "table": TABLE + ["lt_wide", "lt_ages"]}     # ages stated explicitly, as far as the closing age or further

L_REALS = {**STD, "table": [r for r in TABLE if r != "lt_mixed"]}     # (cells derived from rates are kept to seven decimals)

FS = ["fs_S", "fs_l", "fs_mu", "fs_f", "fs_Sl", "fs_Smu", "fs_lmu", "fs_Sf", "fs_all", "fs_again_S", "fs_again_f", "fs_again_mu"]

E_REALS = {"table": TABLE + ["lt_wide", "lt_ages"], "select": ["res_sel", "sl"], "cforce": ["cforce", "res_cf"], "beta": ["uniform", "beta", "res_beta"],
           "makeham": ["makeham", "fr_S"], "selmu": ["fr_S", "fr_mu"]}

C_REALS = {"table": ["lt_l", "lt_wide", "lt_q", "res_Sf"], "select": ["res_Sf"], "cforce": ["cforce", "res_Sf"],
           "beta": ["uniform", "beta", "res_Sf"], "makeham": ["makeham", "res_Sf"], "selmu": ["res_Sf"], "cfm": ["res_Sf"], "zcforce": ["cforce"], "zbeta": ["uniform", "beta"],
           "ztable": ["lt_l", "lt_q", "res_Sf"], "zselect": ["res_sel"], "zmakeham": ["makeham"], "zselmu": []}

POL_REALS = {**STD, "TL": L_REALS["table"], "ctable": ["lt_l", "res_Sf"], "cselect": ["res_Sf"], "ccforce": ["cforce"], "cbeta": ["uniform"]}

MTH_REALS = {**STD, "ctable": ["lt_l", "res_Sf"], "ccforce": ["cforce"], "cbeta": ["uniform", "beta"], "cselect": ["res_Sf"]}

PLAN = {
    "P01": [dict(module="Q01", reals={"interest": ["interest", "life", "changed"]})],
    "P06": [dict(module="Q06", reals={"fill": ["fill"]})],
    "P07": [dict(module="Q07", reals={"table": TABLE + ["lt_q_open", "lt_ages", "lt_wide", "lt_twice"], "tab": ["lt_l", "lt_ages", "lt_wide", "lt_twice", "lt_l_open", "lt_q", "lt_q_open", "lt_mixed", "sult"]})],
    "P05": [dict(module="Q05", reals={"table": TABLE + ["lt_wide"], "tab": ["lt_l", "lt_q"], "select": ["res_sel", "sl"]})],
    "P04": [dict(module="Q04", reals=E_REALS), dict(module="QL", cfg="QL_life.cfg", reals=L_REALS)],
    "P03": [dict(module="Q03", reals={"cforce": ["cforce"], "beta": ["beta", "uniform"], "makeham": ["makeham"]})],
    "P02": [dict(module="Q02", reals={k: FS for k in ("cforce", "beta", "makeham", "selmu")})],
    "P09": [dict(module="Q09", reals=WIDE), dict(module="QL", cfg="QL_ins.cfg", reals=L_REALS)],
    "P11": [dict(module="Q11", reals=C_REALS), dict(module="QL", cfg="QL_cont.cfg", reals={"stairs": ["res_Sf"], "table": ["lt_l", "res_Sf"], "select": ["res_Sf"], "cforce": ["cforce"], "beta": ["uniform"]})],
    "P12": [dict(module="Q12", reals={"table": ["lt_l", "lt_q", "res_l", "sult"], "select": ["res_sel", "sl"], "cforce": ["cforce", "res_mu"],
                                      "beta": ["uniform", "beta", "res_beta"], "makeham": ["makeham", "fr_S"], "selmu": ["fr_S", "fr_mu"]})],
    "P13": [dict(module="Q13", reals={**STD, "ctable": ["lt_l", "res_Sf"], "cselect": ["res_Sf"], "ccforce": ["cforce"], "cbeta": ["uniform"]}), dict(module="QL", cfg="QL_prem.cfg", reals=L_REALS)],
    "P15": [dict(module="Q15", reals=POL_REALS)],
    "P16": [dict(module="Q16", reals=POL_REALS)],
    "P14": [dict(module="Q14", reals=POL_REALS), dict(module="Q14C", reals={"contract": ["contract"]})],
    "P17": [dict(module="Q17", reals={"table": ["lt_l", "res_S"], "select": ["res_sel", "sl"], "cforce": ["cforce", "res_cf"], "beta": ["uniform", "beta"], "makeham": ["makeham"]})],
    "P18": [dict(module="Q18", reals={"table": ["lt_l", "res_S"], "select": ["res_sel", "sl"], "cforce": ["cforce"], "beta": ["uniform", "beta"], "makeham": ["makeham"]})],
    "P19": [dict(module="Q19", reals=POL_REALS)],
    "P23": [dict(module="Q23", reals={**MTH_REALS, "beta": ["uniform", "beta"], "uddbeta": ["res_beta"]})],
    "P24": [dict(module="Q24", reals={**MTH_REALS, **{"c" + k: v for k, v in MTH_REALS.items()}, "udd": ["udd"]})],
    "P25": [dict(module="Q25", reals=STD)],
    "P26": [dict(module="Q26", reals=STD)],
    "P27": [dict(module="Q27", reals={"sult": ["sult"]})],
    "P28": [dict(module="Q28", reals={"life": ["life"]})],
    "P29": [dict(module="Q29", reals={"num": ["num"]})],
    "P30": [dict(module="Q30", reals={**MTH_REALS, **{"c" + k: v for k, v in C_REALS.items()}})],
    "P31": [dict(trace="T31", record="session.py")],
    "P32": [dict(module="Q32", reals={"table": ["lt_l", "lt_q", "res_l"], "select": ["res_sel", "sl"], "cforce": ["cforce"], "beta": ["uniform", "beta"],
                                     "makeham": ["makeham"]})],
    "P08": [dict(module="Q08", reals={"seltable": ["seltable"]})],
    "P10": [dict(module="Q10", reals=WIDE), dict(module="QL", cfg="QL_ann.cfg", reals=L_REALS)],
    "P20": [dict(module="Q20", reals={"sound": ["recursion"], "complete": ["recursion_sound"], "deeper": ["recursion_sound"]})],
    "P22": [dict(module="Q22", reals={"store": ["recursion"]})],
    "P21": [dict(module="Q20", reals={"complete": ["recursion"], "deeper": ["recursion"]})],
}
