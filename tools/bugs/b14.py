ID, PROPERTY = "envelope-of-other-states", "C17"
NEEDS = "precise results over the same variables where a later one has more states for a variable than the first"
BREAKS = "results over different domains are accepted when their variables have the same names: the other states are left out"
EDITS = [("bcause/factors/imprecise.py", "if not all(list_factors[0].domain == f.domain for f in list_factors):", "if not all(list(list_factors[0].domain) == list(f.domain) for f in list_factors):")]
DEMO = """
from bcause.factors import MultinomialFactor
from bcause.factors.imprecise import IntervalProbFactor
a = MultinomialFactor(dict(X=[0, 1]), [.2, .8]); b = MultinomialFactor(dict(X=[0, 1, 2]), [.2, .3, .5])
try: IntervalProbFactor.from_precise([a, b])
except ValueError: pass
else: raise SystemExit("accepted results over other domains")
"""
