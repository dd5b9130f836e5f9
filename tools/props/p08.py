PROPS = [
 dict(
 id="P08", title="Select tables are completed with true values and answer for lives [x]+s",
 statement="Whatever cells of a consistent select and ultimate table are given to SelectLife (mortality rates, lives, deaths, expected lifetimes, whole life insurance and annuity values; rows at once, or columns by age selected or attained, in any order), filling it computes every cell that the year-to-year recursions determine, each equal to its true value, also where nobody or everybody dies within a year, and no other cell; numbers of lives are scaled to the radix only when no lives or deaths are given. Survival, mortality, expected lifetimes, insurances and annuities of [x]+s, for a term, deferred or for life, move across the select period and down the ultimate column, use given values where they apply, and are zero after everyone has died.",
 over=["inputs", "histories"],
 quant="all select and ultimate tables, open or closed, x subsets of cells given x ways and orders of giving them x (x, s) x terms",
 why_tests_cant="The tests load a dozen fixed tables; which cells can be inferred, and from which neighbours, depends on every subset of cells, and mistakes give plausible numbers.",
 files=["src/actuarialmath/selectlife.py"],
 mech=[("recursions applied until nothing changes", "selectlife.py: fill_table"), ("reading across and down the table", "selectlife.py: _get_sel, p_x, q_x, e_x, A_x, a_x")],
 observe=["SelectLife.set_table", "SelectLife.set_select", "SelectLife.fill_table", "SelectLife.__getitem__ and frame", "SelectLife.l_x, p_x, q_x, e_x, A_x, a_x", "whole life, term, endowment and deferred insurances and annuities of SelectLife"],
 technique="TLA+ state machine of what is known of a true table, learning one round of recursions at a time to a fixed point, then following lives through it, explored by TLC; every history and query replayed on real SelectLife objects",
 note="First moments of annual values (the class supports no others). Values past the last row of an open table are not asked."),
]
